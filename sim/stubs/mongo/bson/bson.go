// Package bson: the names used by the code under test.
package bson

type E struct {
	Key   string
	Value interface{}
}
type D []E
type A []interface{}
type M map[string]interface{}
