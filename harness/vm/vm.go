// Package vm holds models, in Go, of the operating system facilities the code
// under test uses. The symbolic engine redirects calls to them.
package vm
