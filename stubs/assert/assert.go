// Package assert (model of testify/assert): only what non-test code of arr-ai/wbnf calls.
package assert

import (
	"fmt"
	"reflect"
)

type TestingT interface {
	Errorf(format string, args ...interface{})
}

func ObjectsAreEqual(expected, actual interface{}) bool {
	if expected == nil || actual == nil {
		return expected == actual
	}
	return reflect.DeepEqual(expected, actual)
}

func Equal(t TestingT, expected, actual interface{}, msgAndArgs ...interface{}) bool {
	if !ObjectsAreEqual(expected, actual) {
		t.Errorf("Not equal: %v %v", expected, actual)
		return false
	}
	return true
}

func EqualValues(t TestingT, expected, actual interface{}, msgAndArgs ...interface{}) bool {
	return Equal(t, expected, actual, msgAndArgs...)
}

func IsType(t TestingT, expectedType, object interface{}, msgAndArgs ...interface{}) bool {
	if reflect.TypeOf(object) != reflect.TypeOf(expectedType) {
		t.Errorf("Object expected to be of type %v, but was %v", reflect.TypeOf(expectedType), reflect.TypeOf(object))
		return false
	}
	return true
}

func NoError(t TestingT, err error, msgAndArgs ...interface{}) bool {
	if err != nil {
		t.Errorf("Received unexpected error:\n%+v", err)
		return false
	}
	return true
}

var _ = fmt.Sprint
