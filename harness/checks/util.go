package checks

import (
	"regexp"
	"sort"
	"strconv"
)

var refRe = regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)

// refIs reports whether a textual reference such as "/Root 5 0 R" names n.
func refIs(s string, n int) bool {
	m := refRe.FindStringSubmatch(s)
	return m != nil && m[1] == strconv.Itoa(n)
}

func sortInts(a []int)       { sort.Ints(a) }
func sortStrings(a []string) { sort.Strings(a) }
