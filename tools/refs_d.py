refs = [
 dict(id='r-ring-if', props=['D03','D04','D01'], edits=[('collections/ring_buffer.go','	r.tail = (r.tail + 1) % cap(r.data)\n','	r.tail = r.next(r.tail)\n'),('collections/ring_buffer.go','	r.head = (r.head + 1) % cap(r.data)\n','	r.head = r.next(r.head)\n'),('collections/ring_buffer.go','func (r *ringBuffer[T]) Head() T {','func (r *ringBuffer[T]) next(i int) int {\n	if i+1 == len(r.data) {\n		return 0\n	}\n	return i + 1\n}\n\nfunc (r *ringBuffer[T]) Head() T {')]),
 dict(id='r-queue-append', props=['D04','D02'], edits=[('collections/queue.go','''		newArray := make([]T, q.ringBuffer.Size()*2)
		head, tail := q.ringBuffer.Data()
		copy(newArray, head)
		if tail != nil {
			copy(newArray[len(head):], tail)
		}
''','''		newArray := make([]T, 2*q.Capacity())
		head, tail := q.Data()
		n := copy(newArray, head)
		copy(newArray[n:], tail)
'''),('collections/queue.go','''	if index < len(head) {
		return head[index]
	} else {
		return tail[index-len(head)]
	}
''','''	if index >= len(head) {
		return tail[index-len(head)]
	}
	return head[index]
''')]),
 dict(id='r-peek-mod', props=['D04'], edits=[('collections/queue.go','''	head, tail := q.ringBuffer.Data()
	if index < len(head) {
		return head[index]
	} else {
		return tail[index-len(head)]
	}
''','''	utils.Assert(index < q.size)
	return q.data[(q.head+index)%len(q.data)]
''')]),
 dict(id='r-direct-helper', props=['D01','D02'], edits=[('collections/buffer_direct.go','''	// 扩容
	nextOffset := b.nextOffset + size
	if nextOffset > cap(b.data) {
		capacity := nextOffset * 3 / 2
		b.grow(capacity)
	}

	block.size += size
	data := b.data[b.nextOffset:nextOffset]
	b.nextOffset = nextOffset
	return data
''','''	start := b.nextOffset
	b.reserve(size)
	b.nextOffset += size
	block.size += size
	return b.data[start:b.nextOffset]
'''),('collections/buffer_direct.go','func (b *DirectBlockBuffer) Write(','func (b *DirectBlockBuffer) reserve(size int) {\n	if need := b.nextOffset + size; need > len(b.data) {\n		b.grow(need + need/2)\n	}\n}\n\nfunc (b *DirectBlockBuffer) Write(')]),
 dict(id='r-rb-switch', props=['D02'], edits=[('collections/buffer_rb.go','''	if over && head-tail >= size {
		// 已经回环, 并且头部有大小合适的内存空间
	} else if !over && r.capacity-tail >= size {
		// 尾部有大小合适的内存空间
	} else if !over && head >= oldBlock.size+size {''','''	limit := r.capacity
	if over {
		limit = head
	}
	if tail+size <= limit {
		// 有大小合适的内存空间
	} else if !over && oldBlock.size+size <= head {'''),('collections/buffer_rb.go','''		discardCount := bufio.MaxInt(r.blocks.Size()-1, 0)
		for i := 0; i < discardCount; i++ {
			r.blocks.Pop()
		}

		// 可能连续多次扩容
		r.discardBlockCount += discardCount
''','''		for r.blocks.Size() > 1 {
			r.blocks.Pop()
			r.discardBlockCount++
		}
'''),('collections/buffer_rb.go','	"github.com/lkmio/avformat/bufio"\n','')]),
 dict(id='r-list', props=['D05'], edits=[('collections/linked_list.go','''	prevNode := l.fist
	offsetNode := l.fist
	for i := 0; i < l.size; i++ {
		if i == index {
			break
		}

		prevNode = offsetNode
		offsetNode = offsetNode.next
	}

	if offsetNode == l.fist {
		//删除第一个node
		l.fist = l.fist.next
	} else if offsetNode == l.last {
		//删除最后一个node
		l.last = prevNode
	} else {
		prevNode.next = offsetNode.next
	}

	if l.size--; l.size == 0 {
		l.fist = nil
		l.last = nil
	}
	return offsetNode.data
''','''	var prev *Node[T]
	link := &l.fist
	for i := 0; i < index; i++ {
		prev = *link
		link = &prev.next
	}

	node := *link
	*link = node.next
	if node == l.last {
		l.last = prev
	}

	l.size--
	return node.data
''')]),
 dict(id='r-ref-cas', props=['D06'], edits=[('collections/reference_counter.go','	return atomic.AddInt32(&r.refer, -1) == 0','	for {\n		n := atomic.LoadInt32(&r.refer)\n		if atomic.CompareAndSwapInt32(&r.refer, n, n-1) {\n			return n == 1\n		}\n	}')]),
 dict(id='r-ref-typed', props=['D06'], edits=[('collections/reference_counter.go','	refer int32\n','	refer atomic.Int32\n'),('collections/reference_counter.go','atomic.AddInt32(&r.refer, 1)','r.refer.Add(1)'),('collections/reference_counter.go','atomic.AddInt32(&r.refer, -1)','r.refer.Add(-1)'),('collections/reference_counter.go','atomic.LoadInt32(&r.refer)','r.refer.Load()'),('collections/reference_counter.go','''	return &ReferenceCounter[T]{
		refer: 1,
		data:  data,
	}''','''	r := &ReferenceCounter[T]{data: data}
	r.Refer()
	return r''')]),
]
