package harness

import (
	"math/rand"

	"google.golang.org/protobuf/types/known/wrapperspb"
)

func u32(v uint32) *wrapperspb.UInt32Value { return wrapperspb.UInt32(v) }

type intner interface{ Intn(int) int }

func pick[T any](r intner, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r intner, pct int) bool { return r.Intn(100) < pct }

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
