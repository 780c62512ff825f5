package main

var propsD = []prop{
	{id: "D01", title: "Linear packet memory keeps every block intact and apart", both: true, min: 3,
		statement: "A block that is fetched from the linear block buffer has exactly the bytes that were written since the previous fetch, also when the buffer grows in between, and keeps them until it is released. The data of the buffer is everything written since it was last empty. Memory that is split off shares no byte with the data. No legal sequence of operations panics.",
		over:      []string{"inputs", "histories"}, quant: "every initial capacity and block size below 2^20, every sequence of up to four writes (with or without a fetch), releases of the oldest and of the newest block, then a split, every byte of the first three writes",
		why:     tests + "whether a block survives depends on sizes, capacity and the order of releases.",
		files:   []string{"collections/buffer_direct.go", "collections/block_buffer.go", "collections/queue.go"},
		mech:    [][2]string{{"growing keeps the data", "collections.DirectBlockBuffer.Alloc/grow"}, {"block bounds", "collections.DirectBlockBuffer.Fetch"}, {"split", "collections.DirectBlockBuffer.SplitOff"}},
		observe: "the slices returned by Fetch and Data",
		explain: "The client performs every sequence of operations on symbolic sizes and follows one arbitrary byte of one write; arrays are modelled as symbolic segments, so sharing of memory is visible. All capacities and sizes are covered at once by linear inequalities.",
		limits:  "sequences of more than four operations; sizes of 2^20 and more; growing the queue of blocks itself (see D04)."},
	{id: "D02", title: "Ring of packet memory never overwrites a live block", both: true, min: 4,
		statement: "A block that is fetched from the ring block buffer has exactly the bytes that were written since the previous fetch and keeps them until it is released, whatever is written, wrapped around, expanded or released in the meantime. Releasing blocks, oldest or newest first, never panics while there are unreleased blocks.",
		over:      []string{"inputs", "histories"}, quant: "every initial capacity and block size below 2^20, every sequence of up to five writes (with or without a fetch) and releases of the oldest and of the newest block, every byte of the first four writes",
		why:     tests + "an overwrite needs particular sizes relative to the capacity and a wrap in a particular order; the test of the ring does not even create a ring.",
		files:   []string{"collections/buffer_rb.go", "collections/buffer_direct.go", "collections/queue.go"},
		mech:    [][2]string{{"placement: behind the tail, at the front, or in new memory", "collections.RBBlockBuffer.Alloc"}, {"releases of discarded blocks", "collections.RBBlockBuffer.Pop/PopBack"}},
		observe: "the slices returned by Fetch",
		explain: "The client performs every sequence of operations on symbolic sizes and follows one arbitrary byte of one write; the analysis forks where the ring chooses between fitting, wrapping and growing, and proves the byte unchanged in each.",
		limits:  "sequences of more than five operations; sizes of 2^20 and more."},
	{id: "D03", title: "Ring buffer is a bounded queue that drops the oldest element", both: true, min: 5,
		statement: "The ring buffer holds the last elements pushed and not yet popped, in order, at most as many as its capacity: a push appends, and drops the oldest element exactly when the buffer is full; a pop removes the oldest. Size, emptiness, fullness, head, tail and the two data slices always agree. No operation on any reachable buffer is out of range.",
		over:      []string{"inputs", "histories"}, quant: "every capacity from 1 to 2^20, every history of pushes and pops of any length, every place in the buffer",
		why:     tests + "wrap-around and fullness errors show only for particular fill levels and positions.",
		files:   []string{"collections/ring_buffer.go"},
		mech:    [][2]string{{"positions modulo the capacity", "collections.ringBuffer.Push/Pop"}, {"the two parts of the data", "collections.ringBuffer.Data"}},
		observe: "the RingBuffer interface",
		explain: "A loop of arbitrary pushes and pops builds the buffer; the analysis computes the invariant that relates head, tail, size and capacity. One further operation is then compared with its specification at an arbitrary place."},
	{id: "D04", title: "Queue is first-in first-out at any size and keeps order when it grows", both: true, min: 5,
		statement: "The queue holds exactly the elements pushed and not removed, in order, and grows without losing, duplicating or reordering any. Pop removes the oldest and PopBack the newest element; Peek, Head, Tail, Data and the size agree. No operation on any reachable queue is out of range.",
		over:      []string{"inputs", "histories"}, quant: "every initial capacity from 1 to 2^20, every history of pushes, pops and back pops of any length, every place in the queue",
		why:     tests + "growing while the content wraps around needs a particular order of pushes and pops.",
		files:   []string{"collections/queue.go", "collections/ring_buffer.go"},
		mech:    [][2]string{{"growing", "collections.Queue.Push"}, {"removal at the back", "collections.Queue.PopBack"}, {"places", "collections.Queue.Peek"}},
		observe: "the methods of Queue",
		explain: "As for the ring buffer, with growing: the invariant of an arbitrary history is computed and every operation compared with its specification at an arbitrary place.",
		limits:  "capacities from 2^40 on."},
	{id: "D05", title: "Linked list keeps elements in order under removals", both: true, min: 1,
		statement: "The linked list returns the elements added, in order, by index; removing an index returns that element and closes the gap, including the first, the last and the only element, and elements added afterwards come last.",
		over:      []string{"inputs", "histories"}, quant: "lists of up to four elements, every sequence of up to three removals, with or without an addition after each, every element value",
		why:     tests + "one list and one removal; the links at the ends need removals in a particular order.",
		files:   []string{"collections/linked_list.go"},
		mech:    [][2]string{{"links", "collections.LinkedList.Add/Remove/Get"}},
		observe: "the methods of LinkedList",
		explain: "The analysis enumerates the shapes (lengths, indexes, additions) and treats the element values symbolically.",
		limits:  "lists of more than four elements: the links are local to one or two neighbours, but no induction over the length is made."},
	{id: "D06", title: "Reference counter: exactly one release is the last", min: 4,
		statement: "The reference counter starts with one reference; every Refer adds one and every Release gives up one, also when they run concurrently. Exactly the release that gives up the last reference returns true. The use count is a value that the counter had.",
		over:      []string{"histories", "schedules"}, quant: "every history of references and releases; every interleaving with other goroutines at every atomic operation",
		why:     tests + "one goroutine; a lost update or a second last release needs an interleaving between two instructions.",
		files:   []string{"collections/reference_counter.go"},
		mech:    [][2]string{{"atomic changes", "collections.ReferenceCounter.Refer/Release"}},
		observe: "the methods of ReferenceCounter",
		explain: "Each method is analysed with interference: at each of its atomic operations the counter may have any value, its own changes are recorded, and a cell that is accessed atomically must not be accessed plainly anywhere in the unit. One atomic change by one whose outcome decides the result makes the method linearizable. A second client compares arbitrary sequential histories with a count.",
		limits:  "counters of 2^30 and more; ResetData is not synchronised and not claimed.",
		assume:  []string{"sync/atomic operations are sequentially consistent"}},
}
