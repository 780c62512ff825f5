from bugs_a import main
BUF='github.com/lkmio/avformat/bufio'
bugs = [
 dict(id='b02-late', prop='B02', edits=[('bufio/bytes_wirter.go','''	if err := b.peekN(len(data)); err != nil {
		return err
	}

	copy(b.data[b.offset-len(data):], data)
	return nil
''','''	offset := b.offset
	err := b.peekN(len(data))
	copy(b.data[offset:], data)
	return err
''')],
  needs='a write of a slice that does not fit', what='the failed write still stores the bytes that fit',
  demo=main([BUF], '''	d := make([]byte, 4)
	w := bufio.NewBytesWriter(d)
	_ = w.Seek(2)
	if w.Write([]byte{1, 2, 3}) == nil || d[2] != 0 {
		panic("a failed write changed the buffer")
	}
''')),
 dict(id='b03-clear', prop='B03', edits=[('bufio/bits_writer.go','data[byteIndex] &^= (1 << bitIndex) ','data[byteIndex] &^= (1<<(bitIndex+1) - 1) ')],
  needs='a write that ends within a byte whose lower bits are set', what='the bits behind the written field are cleared',
  demo=main([BUF], '''	d := []byte{0xFF, 0xFF}
	bufio.WriteBits(d, 4, 6, 0)
	if d[0] != 0xF0 || d[1] != 0x3F {
		panic("neighbouring bits changed")
	}
''')),
 dict(id='b04-long', prop='B04', edits=[('bufio/golomb_reader.go','if !(bit == 0 && i < 32) {','if !(bit == 0 && i < 8) {')],
  needs='a code of 9 or more leading zeros (a value above 510)', what='large values are decoded wrongly and the reader loses its position',
  demo=main(['bytes',BUF], '''	// 9 zeros, 1, 9 zeros: 511
	r := &bufio.GolombBitReader{R: bytes.NewReader([]byte{0x00, 0x40, 0x00})}
	if v, err := r.ReadExponentialGolombCode(); err != nil || v != 511 {
		panic("wrong value")
	}
''')),
 dict(id='b04-sign', prop='B04', edits=[('bufio/golomb_reader.go','res = (res + 1) / 2','res = res/2 + res&1<<1')],
  needs='a signed code of an odd number', what='positive values other than some are off by one',
  demo=main(['bytes',BUF], '''	for _, c := range []struct {
		b byte
		v int
	}{{0x40, 1}, {0x60, -1}, {0x20, 2}, {0x28, -2}} {
		r := &bufio.GolombBitReader{R: bytes.NewReader([]byte{c.b})}
		if v, err := r.ReadSE(); err != nil || int(v) != c.v {
			panic("wrong value")
		}
	}
''')),
 dict(id='b05-put', prop='B05', edits=[('bufio/util.go','(uint32(data[0]) << 16) | (uint32(data[1]) << 8) | uint32(data[2])','(uint32(data[0]) << 16) + (uint32(int8(data[1])) << 8) | uint32(data[2])')],
  needs='a middle byte of 0x80 or more', what='the sign of the middle byte is carried into the value',
  demo=main([BUF], '''	d := make([]byte, 3)
	for v := uint32(0); v < 1<<24; v += 77 {
		bufio.PutUint24(d, v)
		if bufio.Uint24(d) != v {
			panic("wrong value")
		}
	}
''')),
]
