// Package vtick counts the functions entered and the loop bodies begun inside the package, in
// builds where vinstr has put the calls there: work that no atomic operation shows.
package vtick

var N int64

func T() { N++ }
