// Package h is the shared part of the conformance drivers: it executes
// behaviours generated by TLC on the real code and records histories of the
// real code for TLC to validate. It contains no knowledge of what a result
// should be; every verdict compares with, or is made by, the specification.
package h

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Obj is one step of a behaviour: operation name, arguments and result.
type Obj map[string]any

// Has reports whether field k is present.
func (o Obj) Has(k string) bool { _, ok := o[k]; return ok }

// I returns integer field k (0 when absent).
func (o Obj) I(k string) int {
	switch x := o[k].(type) {
	case nil:
		return 0
	case int:
		return x
	}
	panic(Bad(fmt.Sprintf("field %s of %v is not an int", k, o)))
}

// S returns string field k.
func (o Obj) S(k string) string {
	s, _ := o[k].(string)
	return s
}

// Ints returns integer-list field k.
func (o Obj) Ints(k string) []int {
	switch x := o[k].(type) {
	case nil:
		return nil
	case []int:
		return x
	}
	return ToInts(o[k])
}

// IntLists returns field k, a list of integer lists.
func (o Obj) IntLists(k string) [][]int {
	l := o[k].([]any)
	r := make([][]int, len(l))
	for i := range l {
		r[i] = ToInts(l[i])
	}
	return r
}

// ToInts converts a decoded JSON list to ints.
func ToInts(v any) []int {
	l, ok := v.([]any)
	if !ok {
		panic(Bad(fmt.Sprintf("%v is not a list", v)))
	}
	r := make([]int, len(l))
	for i := range l {
		r[i] = l[i].(int)
	}
	return r
}

// L builds a result list.
func L(xs ...int) []any {
	r := make([]any, len(xs))
	for i, x := range xs {
		r[i] = x
	}
	return r
}

// B converts a bool to 0/1.
func B(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Bad is a harness error: never a verdict about the code under test.
type Bad string

type parser struct {
	s []byte
	i int
}

// Parse parses the JSON subset TLC and the drivers write: objects, arrays,
// strings, integers and booleans.
func Parse(b []byte) (any, error) {
	p := &parser{s: b}
	var v any
	err := func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("bad JSON at %d: %v in %.200s", p.i, e, b)
			}
		}()
		v = p.val()
		p.ws()
		if p.i != len(p.s) {
			panic("trailing data")
		}
		return nil
	}()
	return v, err
}

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) val() any {
	p.ws()
	switch c := p.s[p.i]; {
	case c == '{':
		p.i++
		m := map[string]any{}
		for first := true; ; first = false {
			p.ws()
			if p.s[p.i] == '}' {
				p.i++
				return m
			}
			if !first {
				p.want(',')
				p.ws()
			}
			k := p.str()
			p.ws()
			p.want(':')
			m[k] = p.val()
		}
	case c == '[':
		p.i++
		l := []any{}
		for first := true; ; first = false {
			p.ws()
			if p.s[p.i] == ']' {
				p.i++
				return l
			}
			if !first {
				p.want(',')
			}
			l = append(l, p.val())
		}
	case c == '"':
		return p.str()
	case c == 't':
		p.i += 4
		return true
	case c == 'f':
		p.i += 5
		return false
	default:
		j := p.i
		if p.s[j] == '-' {
			j++
		}
		for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
			j++
		}
		n, err := strconv.Atoi(string(p.s[p.i:j]))
		if err != nil {
			panic(err)
		}
		p.i = j
		return n
	}
}

func (p *parser) want(c byte) {
	if p.s[p.i] != c {
		panic(fmt.Sprintf("want %c", c))
	}
	p.i++
}

func (p *parser) str() string {
	p.want('"')
	j := p.i
	for p.s[j] != '"' {
		if p.s[j] == '\\' {
			panic("escape")
		}
		j++
	}
	s := string(p.s[p.i:j])
	p.i = j + 1
	return s
}

// Enc renders a value as JSON with sorted keys ("op" first).
func Enc(v any) string {
	var sb strings.Builder
	enc(&sb, v)
	return sb.String()
}

func enc(sb *strings.Builder, v any) {
	switch x := v.(type) {
	case int:
		sb.WriteString(strconv.Itoa(x))
	case string:
		sb.WriteString(strconv.Quote(x))
	case bool:
		sb.WriteString(strconv.FormatBool(x))
	case []any:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			enc(sb, e)
		}
		sb.WriteByte(']')
	case []int:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Itoa(e))
		}
		sb.WriteByte(']')
	case [][]int:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			enc(sb, e)
		}
		sb.WriteByte(']')
	case Obj:
		enc(sb, map[string]any(x))
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if (keys[i] == "op") != (keys[j] == "op") {
				return keys[i] == "op"
			}
			return keys[i] < keys[j]
		})
		sb.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			enc(sb, x[k])
		}
		sb.WriteByte('}')
	default:
		panic(Bad(fmt.Sprintf("cannot encode %T", v)))
	}
}

// Equal compares two values of the JSON subset.
func Equal(a, b any) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}
