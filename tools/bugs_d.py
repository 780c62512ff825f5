from bugs_a import main
CO='github.com/lkmio/avformat/collections'
bugs = [
 dict(id='d01-grow', prop='D01', edits=[('collections/buffer_direct.go','	copy(bytes, b.data[:b.nextOffset])\n','	if !b.blocks.IsEmpty() {\n		copy(bytes[b.blocks.Tail().index:], b.data[b.blocks.Tail().index:b.nextOffset])\n	}\n')],
  needs='a buffer that grows after an earlier block was fetched', what='only the newest block is carried over: Data() has zeros for the others',
  demo=main([CO], '''	b := collections.NewDirectBlockBuffer(8).(*collections.DirectBlockBuffer)
	b.Write([]byte{1, 2, 3, 4})
	b.Fetch()
	b.Write([]byte{5, 6, 7, 8, 9})
	if b.Data()[1] != 2 {
		panic("data lost")
	}
''')),
 dict(id='d01-popback', prop='D01', edits=[('collections/buffer_direct.go','''	b.blocks.PopBack()
	if b.blocks.IsEmpty() {
		b.nextOffset = 0
	}
''','''	if block := b.blocks.PopBack(); !block.completed || b.blocks.IsEmpty() {
		b.nextOffset -= block.size
	}
''')],
  needs='releasing the oldest block and then the newest, so that the buffer becomes empty', what='the memory of the block released first is never used again and Data() still has it',
  demo=main([CO], '''	b := collections.NewDirectBlockBuffer(8).(*collections.DirectBlockBuffer)
	b.Write([]byte{1, 2})
	b.Fetch()
	b.Write([]byte{3})
	b.Fetch()
	b.Pop()
	b.PopBack()
	if len(b.Data()) != 0 {
		panic("data in an empty buffer")
	}
''')),
 dict(id='d01-split', prop='D01', edits=[('collections/buffer_direct.go','		data: b.data[b.nextOffset:],\n		blocks','		data: b.data[b.blocks.Tail().index+b.blocks.Tail().size:],\n		blocks')],
  needs='a split while the newest block has been discarded', what='the split-off memory overlaps data of the buffer',
  demo=main([CO], '''	b := collections.NewDirectBlockBuffer(16).(*collections.DirectBlockBuffer)
	b.Write([]byte{1, 2})
	b.Fetch()
	b.Write([]byte{3, 4})
	b.Fetch()
	b.PopBack()
	r := b.SplitOff()
	r.Write([]byte{9})
	if b.Data()[2] != 3 {
		panic("shared memory")
	}
''')),
 dict(id='d02-wrap', prop='D02', edits=[('collections/buffer_rb.go','} else if !over && head >= oldBlock.size+size {','} else if !over && head >= size {')],
  needs='a block written in two parts, where the second part does not fit behind the first and the free space in front holds the second part but not both', what='the moved block overwrites the oldest live block',
  demo=main(['bytes', CO], '''	b := collections.NewRBBlockBuffer(30)
	put := func(n int, v byte) []byte { b.Write(bytes.Repeat([]byte{v}, n)); return b.Fetch() }
	put(6, 1)
	x := put(10, 2)
	b.Pop()
	b.Write(bytes.Repeat([]byte{3}, 12))
	b.Write(bytes.Repeat([]byte{4}, 5))
	b.Fetch()
	if !bytes.Equal(x, bytes.Repeat([]byte{2}, 10)) {
		panic("live block overwritten")
	}
''')),
 dict(id='d02-one', prop='D02', edits=[('collections/buffer_rb.go','''		head = oldBlock.index
		tail = head + oldBlock.size
		r.capacity = cap(r.data)
	} else {''','''		head = oldBlock.index
		tail = head + oldBlock.size
		if oldBlock.completed {
			head = tail
		}
		r.capacity = cap(r.data)
	} else {''')],
  needs='one completed block that does not start at the front, and a write that does not fit behind it but fits in front of its end', what='the only live block is overwritten',
  demo=main(['bytes', CO], '''	b := collections.NewRBBlockBuffer(30)
	put := func(n int, v byte) []byte { b.Write(bytes.Repeat([]byte{v}, n)); return b.Fetch() }
	put(6, 1)
	x := put(20, 2)
	b.Pop()
	put(15, 3)
	if !bytes.Equal(x, bytes.Repeat([]byte{2}, 20)) {
		panic("live block overwritten")
	}
''')),
 dict(id='d03-full', prop='D03', edits=[('collections/ring_buffer.go','''	if r.tail <= r.head {
		return''','''	if r.tail < r.head {
		return''')],
  needs='a full ring', what='Data() of a full ring is empty',
  demo=main([CO], '''	r := collections.NewRingBuffer[int](3)
	for i := 0; i < 3; i++ {
		r.Push(i)
	}
	if h, t := r.Data(); len(h)+len(t) != 3 {
		panic("data lost")
	}
''')),
 dict(id='d03-tail', prop='D03', edits=[('collections/ring_buffer.go','		return r.data[cap(r.data)-1]','		return r.data[r.size-1]')],
  needs='a tail position of zero while the ring is not full', what='Tail() returns another element',
  demo=main([CO], '''	r := collections.NewRingBuffer[int](4)
	for i := 0; i < 4; i++ {
		r.Push(i)
	}
	r.Pop()
	if r.Tail() != 3 {
		panic("wrong tail")
	}
''')),
 dict(id='d04-grow', prop='D04', edits=[('collections/queue.go','			copy(newArray[len(head):], tail)','			copy(newArray[len(tail):], tail)')],
  needs='growing while the content wraps around anywhere but in the middle', what='elements are lost or reordered',
  demo=main([CO], '''	q := collections.NewQueue[int](4)
	for i := 0; i < 4; i++ {
		q.Push(i)
	}
	q.Pop()
	q.Push(4)
	q.Push(5)
	for i := 1; i < 6; i++ {
		if q.Pop() != i {
			panic("wrong order")
		}
	}
''')),
 dict(id='d04-back', prop='D04', edits=[('collections/queue.go','	q.tail = (q.tail - 1 + cap(q.data)) % cap(q.data)','	q.tail = (q.head + q.size) % (cap(q.data) + 1)')],
  needs='removing the newest element while the content wraps around', what='the tail points to a wrong place and later elements are lost',
  demo=main([CO], '''	q := collections.NewQueue[int](4)
	for i := 0; i < 4; i++ {
		q.Push(i)
	}
	q.Pop()
	q.Pop()
	q.Push(4)
	q.Push(5)
	q.PopBack()
	q.Push(6)
	if q.Peek(3) != 6 || q.Peek(2) != 4 {
		panic("wrong element")
	}
''')),
 dict(id='d05-last', prop='D05', edits=[('collections/linked_list.go','		l.last = prevNode','		l.last = l.fist')],
  needs='removing the last of three or more elements and adding another one', what='the elements between the first and the new one are lost',
  demo=main([CO], '''	l := &collections.LinkedList[int]{}
	for i := 0; i < 4; i++ {
		l.Add(i)
	}
	l.Remove(3)
	l.Add(9)
	if l.Get(2) != 2 || l.Get(3) != 9 {
		panic("elements lost")
	}
''')),
 dict(id='d06-load', prop='D06', edits=[('collections/reference_counter.go','	return atomic.AddInt32(&r.refer, -1) == 0','	atomic.AddInt32(&r.refer, -1)\n	return atomic.LoadInt32(&r.refer) == 0')],
  needs='two goroutines releasing the last two references at the same time', what='both are told that they were the last (double release)',
  demo=main(['sync', 'sync/atomic', CO], '''	for i := 0; i < 3000000; i++ {
		r := collections.NewReferenceCounter[int](0)
		r.Refer()
		var last int32
		var w sync.WaitGroup
		var start int32
		for j := 0; j < 2; j++ {
			w.Add(1)
			go func() {
				defer w.Done()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < 2 {
				}
				if r.Release() {
					atomic.AddInt32(&last, 1)
				}
			}()
		}
		w.Wait()
		if last != 1 {
			panic("released twice")
		}
	}
''')),
]
