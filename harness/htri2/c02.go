// Package htri2 runs the in-package harness of the trigram index (inpkg/c02).
package htri2

import "github.com/hound-search/hound/codesearch/index"

func C02Varint() { index.VerifVarint() }
func C02Buf()    { index.VerifBuf() }
func C02Heap()   { index.VerifHeap() }
func C02Sort()   { index.VerifSort() }
func C02Flush()  { index.VerifFlush() }
