// Package c20 says where the objects of a beatmap are with given mods.
package c20

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
)

type stacks struct {
	Plain, Easy, HardRock       int
	PlainAt, EasyAt, HardRockAt vector.Vector2f
	Start, End                  float64
	StartAt, EndAt              vector.Vector2f
}

func of(o *objects.HitObject) stacks {
	return stacks{o.StackIndex, o.StackIndexEZ, o.StackIndexHR, o.StackOffset, o.StackOffsetEZ, o.StackOffsetHR,
		o.StartTime, o.EndTime, o.StartPosRaw, o.EndPosRaw}
}

const (
	easy     = difficulty.Easy
	hardRock = difficulty.HardRock
)

// Setting changes what belongs to the mods and nothing else.

func Impl_SetIndex(o *objects.HitObject, index int, mods difficulty.Modifier) stacks {
	o.SetStackIndex(index, mods)
	return of(o)
}
func Ref_SetIndex(o *objects.HitObject, index int, mods difficulty.Modifier) stacks {
	s := of(o)
	if mods&hardRock != 0 {
		s.HardRock = index
	} else if mods&easy != 0 {
		s.Easy = index
	} else {
		s.Plain = index
	}
	return s
}

func Impl_SetOffset(o *objects.HitObject, offset float32, mods difficulty.Modifier) stacks {
	o.SetStackOffset(offset, mods)
	return of(o)
}
func Ref_SetOffset(o *objects.HitObject, offset float32, mods difficulty.Modifier) stacks {
	s := of(o)
	both := vector.Vector2f{X: offset, Y: offset}
	if mods&hardRock != 0 {
		s.HardRockAt = both
	} else if mods&easy != 0 {
		s.EasyAt = both
	} else {
		s.PlainAt = both
	}
	return s
}

// Reading gives what was set.

func Impl_Read(o *objects.HitObject, index int, set, read difficulty.Modifier) int {
	before := o.GetStackIndex(read)
	o.SetStackIndex(index, set)
	return o.GetStackIndex(read) - before
}
func Ref_Read(o *objects.HitObject, index int, set, read difficulty.Modifier) int {
	kind := func(m difficulty.Modifier) int {
		if m&hardRock != 0 {
			return 2
		} else if m&easy != 0 {
			return 1
		}
		return 0
	}
	before := [...]int{o.StackIndex, o.StackIndexEZ, o.StackIndexHR}[kind(read)]
	if kind(set) == kind(read) {
		return index - before
	}
	return 0
}

// Positions.

type places struct{ Start, End, At vector.Vector2f }

func moved(o *objects.HitObject, p vector.Vector2f, mods difficulty.Modifier) vector.Vector2f {
	if mods&hardRock != 0 {
		return vector.Vector2f{X: p.X + o.StackOffsetHR.X, Y: 384 - p.Y + o.StackOffsetHR.Y}
	}
	if mods&easy != 0 {
		return vector.Vector2f{X: p.X + o.StackOffsetEZ.X, Y: p.Y + o.StackOffsetEZ.Y}
	}
	return vector.Vector2f{X: p.X + o.StackOffset.X, Y: p.Y + o.StackOffset.Y}
}

func Impl_Positions(o *objects.HitObject, mods difficulty.Modifier, time float64) places {
	return places{o.GetStackedStartPositionMod(mods), o.GetStackedEndPositionMod(mods), o.GetStackedPositionAtMod(time, mods)}
}
func Ref_Positions(o *objects.HitObject, mods difficulty.Modifier, time float64) places {
	at := o.StartPosRaw
	if o.PositionDelegate != nil {
		at = o.PositionDelegate(time)
	}
	return places{moved(o, o.StartPosRaw, mods), moved(o, o.EndPosRaw, mods), moved(o, at, mods)}
}

func Impl_PositionsPlain(o *objects.HitObject, time float64) places {
	return places{o.GetStackedStartPosition(), o.GetStackedEndPosition(), o.GetStackedPositionAt(time)}
}
func Ref_PositionsPlain(o *objects.HitObject, time float64) places {
	at := o.StartPosRaw
	if o.PositionDelegate != nil {
		at = o.PositionDelegate(time)
	}
	return places{moved(o, o.StartPosRaw, 0), moved(o, o.EndPosRaw, 0), moved(o, at, 0)}
}

// The objects of a beatmap all do it this way.

func Impl_Objects(o objects.IHitObject, offset float32, mods, other difficulty.Modifier) [4]vector.Vector2f {
	o.SetStackOffset(offset, mods)
	return [4]vector.Vector2f{o.GetStackedStartPositionMod(mods), o.GetStackedEndPositionMod(mods), o.GetStackedStartPositionMod(other),
		o.GetStackedStartPosition()}
}
func Ref_Objects(o objects.IHitObject, offset float32, mods, other difficulty.Modifier) [4]vector.Vector2f {
	var h *objects.HitObject
	switch t := o.(type) {
	case *objects.Circle:
		h = t.HitObject
	case *objects.Slider:
		h = t.HitObject
	case *objects.Spinner:
		h = t.HitObject
	default:
		return Impl_Objects(o, offset, mods, other)
	}
	h.SetStackOffset(offset, mods)
	return [4]vector.Vector2f{moved(h, h.StartPosRaw, mods), moved(h, h.EndPosRaw, mods), moved(h, h.StartPosRaw, other), moved(h, h.StartPosRaw, 0)}
}
