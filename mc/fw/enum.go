package fw

import (
	"strconv"
	"strings"
)

// Strings enumerates all concatenations of min..max elements of the alphabet,
// shortest first.
func Strings(alpha []string, min, max int, f func(string)) {
	for n := min; n <= max; n++ {
		Seqs(len(alpha), n, func(ix []int) {
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(alpha[i])
			}
			f(b.String())
		})
	}
}

// Seqs enumerates all sequences of n numbers in [0,k). The slice is reused.
func Seqs(k, n int, f func([]int)) {
	ix := make([]int, n)
	if n > 0 && k == 0 {
		return
	}
	for {
		f(ix)
		i := n - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < k {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Shapes enumerates all ordered forests with n nodes, as the list of the levels
// of the nodes in preorder (the first is 0).
func Shapes(n int, f func([]int)) {
	lv := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(lv)
			return
		}
		max := 0
		if i > 0 {
			max = lv[i-1] + 1
		}
		for l := 0; l <= max; l++ {
			lv[i] = l
			rec(i + 1)
		}
	}
	if n == 0 {
		f(lv)
		return
	}
	rec(0)
}

// Compositions enumerates all ways to cut n into consecutive parts: the cut
// positions are given as a bit mask (bit i: cut after byte i+1).
func Compositions(n int, f func(mask int)) {
	if n == 0 {
		f(0)
		return
	}
	for m := 0; m < 1<<(n-1); m++ {
		f(m)
	}
}

// Cut splits s as given by a mask of Compositions.
func Cut(s string, mask int) []string {
	var r []string
	j := 0
	for i := 0; i < len(s)-1; i++ {
		if mask>>uint(i)&1 == 1 {
			r = append(r, s[j:i+1])
			j = i + 1
		}
	}
	if len(s) > 0 {
		r = append(r, s[j:])
	}
	return r
}

// Ints and join helpers for case descriptions
func Ints(s, sep string) []int {
	if s == "" {
		return nil
	}
	var r []int
	for _, f := range strings.Split(s, sep) {
		n, _ := strconv.Atoi(f)
		r = append(r, n)
	}
	return r
}

func JoinInts(v []int, sep string) string {
	var b strings.Builder
	for i, n := range v {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strconv.Itoa(n))
	}
	return b.String()
}
