package vmodel

import "io"

type ioReadCloser = io.ReadCloser

var eof = io.EOF
