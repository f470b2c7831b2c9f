package harness

import (
	"math"
	"math/rand"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/anypb"
)

// mutate changes m at k random places, also inside of packed messages; what comes out still marshals.
func mutate(r *rand.Rand, m proto.Message, k int) {
	for i := 0; i < k; i++ {
		mutateOnce(r, m.ProtoReflect(), 0)
	}
}

func mutateOnce(r *rand.Rand, m protoreflect.Message, depth int) {
	if a, ok := m.Interface().(*anypb.Any); ok {
		mutateAny(r, a, depth)
		return
	}
	// descend into a populated message
	var subs []func()
	var pop []protoreflect.FieldDescriptor
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) {
			continue
		}
		pop = append(pop, fd)
		v := m.Get(fd)
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				ks := map[string]protoreflect.MapKey{}
				v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool { ks[k.String()] = k; return true })
				for _, n := range sortedKeys(ks) {
					k := ks[n]
					subs = append(subs, func() { mutateOnce(r, v.Map().Get(k).Message(), depth+1) })
				}
			}
		case fd.IsList():
			if fd.Message() != nil {
				l := v.List()
				for i := 0; i < l.Len(); i++ {
					subs = append(subs, func() { mutateOnce(r, l.Get(i).Message(), depth+1) })
				}
			}
		case fd.Message() != nil:
			subs = append(subs, func() { mutateOnce(r, v.Message(), depth+1) })
		}
	}
	if len(subs) > 0 && chance(r, 78) {
		subs[r.Intn(len(subs))]()
		return
	}
	if fds.Len() == 0 {
		return
	}
	// a populated field more often than any field
	fd := fds.Get(r.Intn(fds.Len()))
	if chance(r, 70) && len(pop) > 0 {
		fd = pick(r, pop)
	}
	switch {
	case fd.IsMap():
		if chance(r, 50) {
			m.Clear(fd)
		}
	case fd.IsList():
		mutateList(r, m, fd)
	case fd.Message() != nil:
		if chance(r, 50) {
			m.Clear(fd)
		} else {
			m.Set(fd, m.NewField(fd)) // empty
		}
	default:
		if chance(r, 30) {
			m.Clear(fd)
		} else {
			m.Set(fd, scalar(r, fd))
		}
	}
}

func mutateList(r *rand.Rand, m protoreflect.Message, fd protoreflect.FieldDescriptor) {
	l := m.Mutable(fd).List()
	n := l.Len()
	switch c := r.Intn(6); {
	case c == 0:
		m.Clear(fd)
	case c <= 2 && n > 0:
		// remove one
		i := r.Intn(n)
		for j := i; j < n-1; j++ {
			l.Set(j, l.Get(j+1))
		}
		l.Truncate(n - 1)
	case c == 3 && n > 0:
		// repeat one
		l.Append(clone(fd, l.Get(r.Intn(n))))
	case c == 4 && n > 1:
		i, j := r.Intn(n), r.Intn(n)
		a, b := clone(fd, l.Get(i)), clone(fd, l.Get(j))
		l.Set(i, b)
		l.Set(j, a)
	default:
		if fd.Message() != nil {
			l.AppendMutable()
		} else {
			l.Append(scalar(r, fd))
		}
		if n > 0 {
			// not only at the end
			i := r.Intn(n + 1)
			a, b := clone(fd, l.Get(i)), clone(fd, l.Get(n))
			l.Set(i, b)
			l.Set(n, a)
		}
	}
}

func clone(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	if fd.Message() != nil {
		return protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
	}
	return v
}

var hostileStrings = []string{"", "/", "virtualInbound", "10.0.0.1_80", "c1", "\x00", "é", "::", "a:b:c", "kitexRetryErrorRate", "kitexRetryMethods", "nan", "-1", "[::1]:80", "*", ".*", "(", "NaN"}

func scalar(r *rand.Rand, fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(chance(r, 50))
	case protoreflect.EnumKind:
		if chance(r, 20) {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(r.Int31()))
		}
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(r.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(pick(r, []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 999999999, int32(r.Uint32())}))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(pick(r, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 33, int64(r.Uint64())}))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(pick(r, []uint32{0, 1, math.MaxUint32, 65535, 65536, r.Uint32()}))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(pick(r, []uint64{0, 1, math.MaxUint64, r.Uint64()}))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(pick(r, []float32{0, -1, float32(math.NaN()), float32(math.Inf(1)), 1e30}))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(pick(r, []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 0.5}))
	case protoreflect.BytesKind:
		b := make([]byte, r.Intn(5))
		r.Read(b)
		return protoreflect.ValueOfBytes(b)
	}
	return protoreflect.ValueOfString(pick(r, hostileStrings))
}

func mutateAny(r *rand.Rand, a *anypb.Any, depth int) {
	mt, err := protoregistry.GlobalTypes.FindMessageByURL(a.TypeUrl)
	if err == nil && chance(r, 85) {
		m := mt.New().Interface()
		if proto.Unmarshal(a.Value, m) == nil {
			for i, k := 0, 1+r.Intn(2); i < k; i++ {
				mutateOnce(r, m.ProtoReflect(), depth+1)
			}
			if b, err := proto.Marshal(m); err == nil {
				a.Value = b
				return
			}
		}
	}
	switch r.Intn(6) {
	case 0:
		a.TypeUrl = pick(r, []string{"", "x", "type.googleapis.com/", urlOf[L], urlOf[R], urlOf[C], urlOf[E], urlOf[N]})
	case 1:
		a.Value = nil
	default:
		a.Value = mutateBytes(r, a.Value)
	}
}

// mutateBytes flips, cuts, inserts, repeats.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, k := 0, 1+r.Intn(4); i < k; i++ {
		switch r.Intn(7) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1, 2:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
		case 3:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(pick(r, []int{0, 1, 0x7f, 0x80, 0xff, r.Intn(256)}))
			}
		case 4:
			j := r.Intn(len(b) + 1)
			ins := make([]byte, 1+r.Intn(4))
			r.Read(ins)
			b = append(b[:j:j], append(ins, b[j:]...)...)
		case 5:
			if len(b) > 1 {
				i, j := r.Intn(len(b)), r.Intn(len(b))
				if i > j {
					i, j = j, i
				}
				b = append(b[:j:j], b[i:]...)
			}
		case 6:
			if len(b) > 1 {
				i, j := r.Intn(len(b)), r.Intn(len(b))
				if i > j {
					i, j = j, i
				}
				b = append(b[:i:i], b[j:]...)
			}
		}
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
	}
	return b
}
