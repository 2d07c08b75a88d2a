// Package vmodel models the environment (operating system, codecs, printing) for the symbolic
// engine. Functions marked gosym:model replace the named library functions.
package vmodel

// RuntimeError is the dynamic type of run-time panics in the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}
