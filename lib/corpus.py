"""Hand-written programs that together use every form of the grammar (accepted), and rejected ones."""
LIB = {'lib.tsh': '''var Count int
hidden := "h"
func private(a int) int {
	return a * 2
}
func Twice(a int) int {
	return private(a)
}
func Show(s string) {
	print("lib", hidden, s)
}
func Pair() (int, string) {
	return 7, hidden
}
Count = 3
''', 'sub/other.tsh': '''import lib "../lib.tsh"
func Deep(s string) string {
	lib.Show(s)
	return s + "!"
}
''', 'plain.tsh': '''func P() int {
	return 1
}
'''}

OK = {
'scalars': '''a := 1
b, c := 2, "x"
var d int
var e, f string = "p", "q"
var g = true
var h bool
a = b + a * (3 - b) / 2 % 5
a, b = b, a
a += 2
a -= b
a *= -3
a /= 2
a %= 7
a++
b--
c += "y" + e + f
h = !g && (a == b || a != 3) && a < b || a <= b || a > 4 || b >= -1
print(a, b, c, d, e, f, g, h, itoa(a) + c, a-1, a - -1, -2-a)
print()
print("")
print(nil)
''',
'ifs': '''a := 3
if a == 1 {
	print("one")
} else if a == 2 {
	print("two")
} else if a == 3 {
} else {
	print("many")
}
if a > 1 {
	if a > 2 {
		print("x")
	}
	print("y")
}
if true {
} else {
	a = 2
}
''',
'switches': '''a := "k"
n := 2
switch a {
case "j":
	print(1)
case "k" + "":
	print(2)
default:
	print(3)
}
switch n {
case 1:
case 2:
	n++
	print(n)
}
switch {
case n == 3:
	print("three")
default:
}
switch n {
default:
	print("only")
}
switch true {
case n > 1:
	print("gt")
}
switch a {
}
''',
'fors': '''for i := 0; i < 3; i++ {
	if i == 1 {
		continue
	}
	print(i)
}
j := 0
for j < 3 {
	j += 1
}
for {
	j++
	if j > 5 {
		break
	}
}
for ; j < 9; j++ {
}
for k := 9; k > 6; k -= 1 {
	for l := 0; l < 2; l++ {
		print(k, l)
	}
}
for i, v := range []int{1, 2, 3} {
	print(i, v)
}
for i := range "abc" {
	print(i)
}
for _, c := range "abc" {
	print(c)
}
''',
'funcs': '''g := 0
func none() {
	g++
}
func one(a int) int {
	b := a + 1
	return b
}
func two(a string, b bool, c int) (string, int) {
	if b {
		return a + "x", c
	} else {
		c++
	}
	return a, c * 2
}
func typed(a int, b int, s []string) []string {
	s[len(s)] = itoa(a + b)
	return s
}
func err() (int, error) {
	return 1, nil
}
func early(a int) {
	for i := 0; i < a; i++ {
		if i == 3 {
			print("three")
		}
	}
}
none()
x := one(one(2))
s, n := two("a", true, x)
print(s, n, g)
t := typed(1, 2, []string{"a"})
print(len(t), t[0], t[1])
print(two("q", false, 1))
early(5)
e, f := err()
print(e, f == nil, f)
''',
'slices': '''a := []int{1, 2, 3}
b := []string{}
var c []bool
d := []error{nil, "x"}
b[0] = "x"
b[len(b)] = "y"
c[3] = true
a[a[0]] = a[1] + a[2]
n := copy(a, []int{4, 5})
print(a[0], a[n], len(a), len(b), len(c), c[0], d[1])
e := a
e[1]++
''' .replace('e[1]++\n', 'e[1] = e[1] + 1\n'),
'strings': '''s := "hello"
r := `raw \\n "x"
line`
print(s[0], s[1:3], s[:2], s[2:], s[:], len(s), r)
t := s[len(s) - 1] + "\\"q\\"\\t\\\\ $x `y`"
print(t == s, t != s)
''',
'builtins': '''x := input("prompt> ")
y := input()
write("f", x)
write("f", y, true)
if exists("f") {
	print(read("f"))
}
z := read("f") + itoa(len(x))
print(z)
panic("end " + z)
''',
'apps': '''@ls()
@ls("-l", "a b")
@"my prog"("x") | @grep("y") | @wc("-l")
out, err, code := @echo("x", "y" + "z")
print(out, err, code)
out, err, code = @`raw`() | @cat()
if code == 0 {
	@true()
}
''' .replace('@true()', '@ok()'),
'import1': '''import lib "lib.tsh"

lib.Show("x")
a, b := lib.Pair()
print(a, b, lib.Twice(a))
''',
'import2': '''import (
	lib "lib.tsh"
	o "sub/other.tsh"
	p "plain.tsh"
	"strings"
)

print(o.Deep("z"), p.P(), lib.Twice(2))
print(strings.Contains("abc", "b"), strings.TrimSpace("  x "))
func f() int {
	return p.P() + lib.Twice(4)
}
print(f())
''',
'nested': '''func f(n int) string {
	r := ""
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			r += "a"
		case 1:
			for j, c := range "xy" {
				if j == 1 && c == "y" {
					continue
				} else if r == "zz" {
					return r
				}
				r += c
			}
		default:
			if len(r) > 3 {
				break
			}
			r += "d"
		}
	}
	return r
}
print(f(5), f(0))
''' .replace('\t\t\t\tbreak\n', '\t\t\t\tr += "e"\n'),
'empty': '',
'onlycomments': '// nothing\n/* here */\n',
'groups': '''var (
''' if False else '''a := ((1 + 2)) * (3)
b := (a == 9) == true
c := !(b) || (!b)
print(a, b, c, (a), ("x" + "y") + "z")
''',
'many': '''func a1(p int, q int, r int, s int, t int, u int, v int, w int, x int, y int, z int) int {
	return p + q + r + s + t + u + v + w + x + y + z
}
print(a1(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11))
func unused() {
	a := 1
	print(a)
}
func unusedToo() {
	unused()
}
''',
'jumps': '''func f(a []int) (int, bool) {
	for i, v := range a {
		if v < 0 {
			return i, true
		}
	}
	return -1, false
}
i, ok := f([]int{3, -4})
print(i, ok)
for {
	for {
		break
	}
	break
}
''',
}

BAD = {
'undefined': 'print(x)\n', 'type': 'a := 1\na = "x"\n', 'cond': 'if 1 {\n}\n', 'noclose': 'if true {\nprint(1)\n', 'brk': 'break\n', 'ret': 'return 1\n', 'arity': 'func f(a int) {\n}\nf()\n',
'redef': 'a := 1\na := 2\n', 'notop': 'if true {\n\tfunc f() {\n\t}\n}\n', 'void': 'func f() {\n}\na := f()\n', 'fall': 'func f() int {\n\tprint(1)\n}\n', 'missing': 'import "nope.tsh"\n', 'alias': 'import lib "lib.tsh"\nlib.private(1)\n',
'op': 'a := "x" - "y"\n', 'idx': 'a := []int{1}\na["x"] = 1\n', 'stray': 'a := 1 +\n', 'paren': 'print((1 + 2)\n', 'two': 'a := 1 b := 2\n', 'tok': 'a := 1 # 2\n', 'str': 'a := "x\n', 'slice': 'a := []int{"x"}\n', 'call': 'f()\n', 'cmp': 'print(1 == "x")\n',
'impl': 'a := 1\nimport lib "lib.tsh"\n', 'for': 'for i := 0; i; i++ {\n}\n', 'rng': 'for i, v := range 5 {\n}\n', 'case': 'switch 1 {\ncase "x":\n}\n', 'multi': 'a, b := 1\n', 'assign': '1 = 2\n', 'inc': 's := "x"\ns++\n', 'log': 'a := 1 && true\n', 'neg': 'a := !1\n',
}
