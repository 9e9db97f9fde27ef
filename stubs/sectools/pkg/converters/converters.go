// Package converters is an offline stand-in for github.com/hyp3rd/sectools
// v1.2.6 (which this sandbox cannot fetch). It only provides what
// hyp3rd/hypercache imports, with the same names and result types, so the
// packages that depend on it can be type-checked and analysed.
package converters

import (
	"errors"
	"math"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// ErrOutOfRange reports a lossy conversion.
var ErrOutOfRange = errors.New("converters: value out of range")

// ToUint32 converts v to uint32.
func ToUint32[T integer](v T) (uint32, error) {
	if v < 0 || uint64(v) > math.MaxUint32 {
		return 0, ErrOutOfRange
	}

	return uint32(v), nil
}

// ToUint converts v to uint.
func ToUint[T integer](v T) (uint, error) {
	if v < 0 {
		return 0, ErrOutOfRange
	}

	return uint(v), nil
}

// ToInt converts v to int.
func ToInt[T integer](v T) (int, error) {
	if v > 0 && uint64(v) > math.MaxInt {
		return 0, ErrOutOfRange
	}

	return int(v), nil
}

// ToInt64 converts v to int64.
func ToInt64[T integer](v T) (int64, error) {
	if v > 0 && uint64(v) > math.MaxInt64 {
		return 0, ErrOutOfRange
	}

	return int64(v), nil
}
