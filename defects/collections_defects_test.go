package collections

import (
	"bytes"
	"testing"
)

func fill(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }

// a ring that is exactly full after wrapping hands out memory of a live block
func TestDefectRingFullOverwrites(t *testing.T) {
	b := NewRBBlockBuffer(30)
	put := func(n int, v byte) []byte { b.Write(fill(n, v)); return b.Fetch() }
	put(10, 1)
	x := put(10, 2)
	put(10, 3)
	b.Pop()
	put(10, 4)
	put(5, 5)
	if !bytes.Equal(x, fill(10, 2)) {
		t.Errorf("live block overwritten: %v", x)
	}
}

// two expansions before the consumer catches up: the pops owed for the first one are forgotten
func TestDefectDiscardCountLost(t *testing.T) {
	b := NewRBBlockBuffer(10)
	put := func(n int, v byte) []byte { b.Write(fill(n, v)); return b.Fetch() }
	put(5, 1)
	put(5, 2)
	put(20, 3)  // grows, owes 2 pops
	put(100, 4) // grows, owes 1 more
	b.Pop()
	b.Pop()
	b.Pop()
	if b.Size() != 1 {
		t.Errorf("live blocks %d, want 1", b.Size())
	}
}

func TestDefectSplitOff(t *testing.T) {
	b := NewDirectBlockBuffer(24)
	b.Write(fill(20, 1))
	b.Fetch()
	n := b.SplitOff()
	if n.AvailableBytes() != 4 {
		t.Errorf("available %d, want 4", n.AvailableBytes())
	}
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panics: %v", r)
		}
	}()
	n.Write(fill(1, 2))
}

func TestDefectQueueCapacity(t *testing.T) {
	if c := NewQueue[int](7).Capacity(); c != 7 {
		t.Errorf("capacity %d", c)
	}
}

// the newest block is released after an expansion has already dropped it
func TestDefectPopBackAfterGrow(t *testing.T) {
	b := NewRBBlockBuffer(4)
	b.Write(fill(4, 1))
	b.Fetch()
	b.Write(fill(40, 2))
	b.PopBack()
	b.PopBack()
}
