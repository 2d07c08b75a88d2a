// Package hclient2 runs the in-package harness of the client (inpkg/c23).
package hclient2

import "github.com/hound-search/hound/client"

func C23Blocks() { client.VerifBlocks() }
