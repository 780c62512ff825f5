package main

var propsB = []prop{
	{id: "B01", title: "Byte reader: exact big-endian reads, no partial consumption", min: 1,
		statement: "A byte reader returns the big-endian value or the bytes at its cursor and advances by exactly their size; a read or seek that does not fit fails and leaves the cursor and the remaining data unchanged. Offset, readable count and remaining bytes always agree.",
		over:      []string{"inputs", "histories"}, quant: "every byte string, every sequence of operations of any length and every non-negative argument",
		why:     tests + "a failed read that consumes, or a wrong bound, needs a particular remainder at a particular point of a sequence.",
		files:   []string{"bufio/bytes_reader.go", "bufio/bytes_buffer.go", "bufio/util.go"},
		mech:    [][2]string{{"bounds check and cursor", "bufio.bytesBuffer.PeekN/Seek"}, {"big-endian decoding", "bufio.bytesReader.ReadUint*"}},
		observe: "results of the BytesReader interface",
		explain: "A client drives an arbitrary sequence of the eleven operations in a loop whose invariant the analysis computes, comparing every result with a model cursor."},
	{id: "B02", title: "Byte writer: exact big-endian writes, nothing outside the cursor's place", min: 1,
		statement: "A byte writer stores the big-endian value or the bytes at its cursor and advances by exactly their size; a write or seek that does not fit fails, changes no byte and leaves the cursor. No write changes a byte outside the place it is for; the written bytes are always the buffer up to the cursor.",
		over:      []string{"inputs", "histories"}, quant: "every buffer, every sequence of operations of any length, every value, and every position of the buffer for the frame condition",
		why:     tests + "a failed write that stores something, or one byte too many, shows only for a particular remaining size.",
		files:   []string{"bufio/bytes_wirter.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"bounds check and cursor", "bufio.bytesBuffer.peekN/Seek"}, {"big-endian encoding", "bufio.bytesWriter.WriteUint*/Write"}},
		observe: "the BytesWriter interface and the buffer it writes to",
		explain: "A client drives an arbitrary sequence of operations in a loop whose invariant the analysis computes, comparing the stored bytes, the cursor, and one arbitrary other byte of the buffer with a model."},
	{id: "B03", title: "Bit-field access reads and writes exactly the addressed bits", min: 6,
		statement: "Reading n bits at a bit position returns them most significant first; writing stores the low n bits of the value there and changes no other bit. At the end of the data a read returns the bits that are left, a write stores the bits that fit, and nothing is accessed outside. The bit reader and writer move by exactly the bits read or written.",
		over:      []string{"inputs"}, quant: "every data and byte position, all 8 alignments, widths 1 to 32 and 64 (9 to 20 at the end of the data), every value",
		why:     tests + "they use a few fixed positions; a shifted bit shows only for some alignment, width and neighbouring bits.",
		files:   []string{"bufio/bits_reader.go", "bufio/bits_writer.go"},
		mech:    [][2]string{{"bit addressing", "bufio.ReadBits, bufio.WriteBits"}, {"cursor", "bufio.BitsReader, bufio.BitsWriter"}},
		observe: "results of ReadBits and the data after WriteBits",
		explain: "For each alignment and width the analysis represents bytes as symbolic bit vectors and proves that the result is the specified slice of a 24 to 72 bit window, for an arbitrary byte position and arbitrary data.",
		limits:  "widths of 33 to 63 bits; BitsReader.SafeRead is an unimplemented stub and is not covered."},
	{id: "B04", title: "Exp-Golomb bit reader decodes exactly the bits of the stream", min: 7,
		statement: "The Golomb bit reader delivers the bits of its source in order, most significant first, consumes exactly the bits it returns, decodes unsigned codes as the z+1 bits behind z zeros less one and signed codes as alternating positive and negative values, and fails when the source ends within a read.",
		over:      []string{"inputs"}, quant: "every data, skips of 0 to 9 bits, widths 0 to 16, 32 and 48, codes with up to 31 leading zeros (8 for signed codes) and every suffix",
		why:     tests + "parameter set parsing depends on it for every field, and an off-by-one in one code length shows only for particular values.",
		files:   []string{"bufio/golomb_reader.go"},
		mech:    [][2]string{{"bit cursor", "bufio.GolombBitReader.ReadBit"}, {"code length", "bufio.GolombBitReader.ReadExponentialGolombCode"}, {"sign mapping", "bufio.GolombBitReader.ReadSE"}},
		observe: "results of the GolombBitReader methods over a bytes.Reader",
		explain: "The clients assemble streams with an arbitrary prefix, an Exp-Golomb code with an arbitrary suffix and arbitrary bits behind it; results are compared as symbolic bit vectors.",
		limits:  "codes with 32 leading zeros; signed codes with more than 8; sources other than bytes.Reader."},
	{id: "B05", title: "24 bit big-endian access and the integer minimum and maximum are exact", min: 3,
		statement: "The 24 bit helpers store and load exactly three bytes big-endian, so that loading reads back what was stored, and the minimum and maximum helpers return the smaller and the larger argument.",
		over:      []string{"inputs"}, quant: "every value, every buffer of at least three bytes, every pair of integers",
		why:     tests + "no test calls them.",
		files:   []string{"bufio/util.go"},
		mech:    [][2]string{{"byte order", "bufio.PutUint24, bufio.Uint24"}, {"comparison", "bufio.MinInt, bufio.MaxInt"}},
		observe: "results and the buffer",
		explain: "Specification clients with arbitrary arguments, decided by abstract interpretation with symbolic bytes."},
}
