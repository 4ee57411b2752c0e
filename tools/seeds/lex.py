import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
seed("lex-clone-flags", "C01", [("token/tokenizer.go", "		loadComment: t.loadComment,\n	}", "		loadComment: t.loadSpace,\n	}")], '''
func demo() {
	text := []rune("a{c} b")
	tk := token.NewTokenizer(&text, token.LoadSpace)
	if tk.GetNext().RawString() != "a" {
		fail("a")
	}
	cl := tk.Clone()
	if a, b := tk.GetNext().RawString(), cl.GetNext().RawString(); a != b {
		fail("reader %q, copy %q", a, b)
	}
}''', "a copy of a reader which keeps only one of blanks and comments", "a copy of a reader gives other tokens than the reader itself")
seed("lex-wide-digit", "C02", [("runes/word.go", "return IsWordHead(r) || IsDigit(r)", "return IsWordHead(r) || unicode.IsNumber(r)")], '''
func demo() {
	text := []rune("a\\uff11")
	tk := token.NewTokenizer(&text, 0)
	if s := tk.GetNext().RawString(); s != "a" {
		fail("%q", s)
	}
}''', "a word which is directly followed by a digit which is not an ASCII digit", "full-width digits become part of words")
seed("lex-cr-line", "C03", [("runes/cursor.go", "	if r == '\\n' {", "	if r == '\\n' || (r == '\\r' && c.Seek(1) != '\\n') {")], '''
func demo() {
	text := []rune("a\\rb")
	tk := token.NewTokenizer(&text, 0)
	tk.GetNext()
	if p := tk.GetNext().Start; p.Line != 1 || p.Col != 3 {
		fail("b is at %v", p)
	}
}''', "a carriage return without line feed inside of the text", "lines end at carriage returns, positions behind it are wrong")
