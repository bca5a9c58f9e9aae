package fmt

import "io"

// Scanning is not modelled; nothing under check scans.

type ScanState interface {
	ReadRune() (r rune, size int, err error)
	UnreadRune() error
	SkipSpace()
	Token(skipSpace bool, f func(rune) bool) (token []byte, err error)
	Width() (wid int, ok bool)
	Read(buf []byte) (n int, err error)
}

type Scanner interface {
	Scan(state ScanState, verb rune) error
}

func Sscan(str string, a ...any) (n int, err error)                  { panic("fmt.Sscan is not modelled") }
func Sscanf(str string, format string, a ...any) (n int, err error)  { panic("fmt.Sscanf is not modelled") }
func Sscanln(str string, a ...any) (n int, err error)                { panic("fmt.Sscanln is not modelled") }
func Fscan(r io.Reader, a ...any) (n int, err error)                 { panic("fmt.Fscan is not modelled") }
func Fscanf(r io.Reader, format string, a ...any) (n int, err error) { panic("fmt.Fscanf is not modelled") }
