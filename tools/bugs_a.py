def main(imports, body):
    return 'package main\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imports) + ')\n\nfunc main() {\n' + body + '}\n'
AVC='github.com/lkmio/avformat/avc'; HEVC='github.com/lkmio/avformat/hevc'; BUF='github.com/lkmio/avformat/bufio'
W = """
type w struct{ bits []byte }

func (s *w) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		s.bits = append(s.bits, byte(v>>uint(i)&1))
	}
}

func (s *w) ue(v uint64) {
	n := 0
	for (v+1)>>uint(n+1) != 0 {
		n++
	}
	s.u(n, 0)
	s.u(n+1, v+1)
}

// b gives the bytes with emulation prevention.
func (s *w) b() []byte {
	var r []byte
	z := 0
	for i := 0; i+8 <= len(s.bits); i += 8 {
		x := byte(0)
		for _, b := range s.bits[i : i+8] {
			x = x<<1 | b
		}
		if z >= 2 && x <= 3 {
			r = append(r, 3)
			z = 0
		}
		r = append(r, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return r
}
"""
SPSDEMO = 'package main\n\nimport "github.com/lkmio/avformat/avc"\n' + W + "\nfunc main() {\n%s}\n"
SPSDEMO5 = SPSDEMO.replace('/avc', '/hevc')

bugs = [
 dict(id='a03-size', prop='A03', edits=[('avc/util.go','if i > 3 && p[i-4] == 0x0','if i > 4 && p[i-4] == 0x0')],
  needs='a four byte start code at the very beginning of the data', what='its size is reported as 3, so everything computed from it is off by one',
  demo=main([AVC], '''	i, n := avc.FindStartCode([]byte{0, 0, 0, 1, 0x65, 9})
	if i != 4 || n != 4 || avc.FindStartCode2([]byte{9, 0, 0, 0, 1, 0x65}) != 1 {
		panic("wrong start code")
	}
''')),
 dict(id='a03-skip', prop='A03', edits=[('avc/util.go','''		} else if p[i-1] != 0 {
			i += 2''','''		} else if p[i-1] != 0 {
			i += 3''')],
  needs='a start code that lies two positions behind a non-zero byte at the right alignment of the search', what='the search jumps over a start code and reports a later one or none',
  demo=main([AVC], '''	for k := 0; k < 6; k++ {
		d := make([]byte, k)
		for i := range d {
			d[i] = 1
		}
		d = append(d, 0, 0, 1, 7)
		if i, _ := avc.FindStartCode(d); i != k+3 {
			panic("start code missed")
		}
	}
''')),
 dict(id='a01-end', prop='A01', edits=[('avc/util.go','''	if i < length {
		// 计算''','''	if i <= length {
		// 计算''')],
  needs='data that ends with the last byte of a start code', what='the reported header lies behind the data and the callers panic',
  demo=main([AVC], '''	avc.IsKeyFrame([]byte{0, 0, 1, 9, 0xF0, 0, 0, 1})
	avc.IsKeyFrame([]byte{7, 0, 0, 1})
''')),
 dict(id='a02-cut', prop='A02', edits=[('avc/util.go','''	return index - length
}

func IsKeyFrame''','''	if index > length && length == 4 && p[index-length-1] == 0 {
		length++
	}
	return index - length
}

func IsKeyFrame''')],
  needs='a unit that is followed by two or more zero bytes in front of a start code', what='the boundary lies in front of the zero bytes that belong to the previous unit, so a piece starts with no start code',
  demo=main([AVC], '''	var n int
	avc.SplitNalU([]byte{0, 0, 1, 0x67, 9, 0, 0, 0, 0, 1, 0x68, 7}, func(u []byte) {
		if n++; n == 2 && len(u) != 6 {
			panic("the unit does not begin with its start code")
		}
	})
''')),
 dict(id='a04-irap', prop='A04', edits=[('hevc/util.go','type_ >= 16 && type_ <= 23','type_ >= 16 && type_ <= 21')],
  needs='a frame whose first slice has type 22 or 23', what='it is not a key frame any more',
  demo=main([HEVC], '''	for t := byte(0); t < 64; t++ {
		if hevc.IsKeyFrame([]byte{0, 0, 1, t << 1, 1, 9, 9}) != (t >= 16 && t <= 23) {
			panic("wrong classification")
		}
	}
''')),
 dict(id='a04-aud', prop='A04', edits=[('avc/util.go','case H264NalSEI, H264NalAUD, H264NalPPS, H264NalSPS:','case H264NalSEI, H264NalPPS, H264NalSPS:')],
  needs='a key frame that begins with an access unit delimiter', what='it is not recognised as a key frame',
  demo=main([AVC], '''	if !avc.IsKeyFrame([]byte{0, 0, 0, 1, 9, 0xF0, 0, 0, 1, 0x67, 1, 0, 0, 1, 0x65, 9}) {
		panic("a key frame is missed")
	}
''')),
 dict(id='b01-back', prop='B01', edits=[('bufio/bytes_buffer.go','if b.length < end || end < 0 {','if b.length < end || end < 0 || size < 0 && end == 0 {')],
  needs='seeking back to the very start of the data', what='a seek within the data fails',
  demo=main([BUF], '''	r := bufio.NewBytesReader([]byte{1, 2, 3})
	r.ReadUint16()
	if r.SeekBack(2) != nil || r.Offset() != 0 {
		panic("cannot seek back to the start")
	}
''')),
 dict(id='b01-partial', prop='B01', edits=[('bufio/bytes_buffer.go','''		return fmt.Errorf("slice bounds out of range [:%d] with length %d", b.offset+size, b.length)
	}
''','''		err := fmt.Errorf("slice bounds out of range [:%d] with length %d", b.offset+size, b.length)
		if size > 4 {
			b.offset = b.length
		}
		return err
	}
''')],
  needs='a failed read of more than four bytes followed by another read', what='the failed read consumes the rest of the data',
  demo=main([BUF], '''	r := bufio.NewBytesReader([]byte{1, 2, 3, 4, 5})
	r.ReadUint8()
	if _, err := r.ReadUint64(); err == nil {
		panic("read beyond the end")
	}
	if v, err := r.ReadUint32(); err != nil || v != 0x02030405 {
		panic("a failed read consumed data")
	}
''')),

 dict(id='a05-extra', prop='A05', edits=[('avc/util.go','''			if !spsSeen && !ppsSeen && len(extra) > 0 {
				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)''','''			if (!spsSeen || !ppsSeen) && len(extra) > 0 {
				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)''')],
  needs='a packet with a PPS but no SPS in front of the IDR slice', what='the extra data is inserted behind the new PPS, which it overrides',
  demo=main([AVC], '''	dst := make([]byte, 100)
	n := avc.AVCC2AnnexB(dst, []byte{0, 0, 0, 2, 0x68, 1, 0, 0, 0, 2, 0x65, 2}, []byte{0, 0, 0, 1, 0x67, 9})
	if n != 11 {
		panic("extra data behind a PPS")
	}
''')),
 dict(id='a05-sei', prop='A05', edits=[('avc/util.go','''		case H264NalSEI:
			index += size
			continue
		}

		bytes := avcc[index : index+size]''','''		case H264NalSEI:
			index += size + 4
			index -= 4
			if outSize == 0 {
				continue
			}
			index -= size
		}

		bytes := avcc[index : index+size]''')],
  needs='a SEI that is not the first unit of its packet', what='it is written although SEI units are dropped',
  demo=main([AVC], '''	dst := make([]byte, 100)
	if n := avc.AVCC2AnnexB(dst, []byte{0, 0, 0, 2, 0x41, 1, 0, 0, 0, 2, 6, 2}, nil); n != 6 {
		panic("SEI kept")
	}
''')),
 dict(id='a06-len', prop='A06', edits=[('avc/util.go','''		nalSize := nalEnd - n
''','''		nalSize := nalEnd - n
		if n == 3 && nalSize > 0xFFFF {
			nalSize--
		}
''')],
  needs='a unit of more than 65535 bytes in front of a three byte start code', what='its last byte is lost',
  demo=main([AVC], '''	src := []byte{0, 0, 1}
	for i := 0; i < 70000; i++ {
		src = append(src, 7)
	}
	src = append(src, 0, 0, 1, 0x41, 9)
	if n := avc.AnnexB2AVCC(make([]byte, 80000), src); n != 4+70000+4+2 {
		panic("wrong size")
	}
''')),
 dict(id='a06-last', prop='A06', edits=[('avc/util.go','''			nalEnd = len(annexB[nalStart:])
			n = 0
''','''			nalEnd = len(annexB[nalStart:])
			if size == 0 {
				n = 0
			}
''')],
  needs='a frame of more than one unit', what='the last unit of a frame of several units keeps the size of "no start code", -1, and its length becomes one too large',
  demo=main([AVC], '''	defer func() {
		if recover() != nil {
			panic("panic")
		}
	}()
	if n := avc.AnnexB2AVCC(make([]byte, 100), []byte{0, 0, 1, 0x65, 9, 0, 0, 1, 0x41, 9}); n != 12 {
		panic("wrong size")
	}
''')),
 dict(id='a07-irap', prop='A07', edits=[('hevc/util.go','''		if isIRAP {
			gotIRAP |= 1
		} else {
			gotIRAP |= 0
		}
''','''		if isIRAP {
			gotIRAP |= 1
		} else {
			gotIRAP = 0
		}
''')],
  needs='a packet with a unit that is not IRAP between two IRAP units', what='the extra data is inserted a second time in the middle of the picture',
  demo=main([HEVC], '''	src := []byte{2, 19 << 1, 1, 2, 1 << 1, 1, 2, 19 << 1, 1}
	if n, err := hevc.Mp4ToAnnexB(make([]byte, 100), src, []byte{0, 0, 0, 1, 64, 9}, 1); err != nil || n != 24 {
		panic("extra data inserted twice")
	}
''')),
 dict(id='a07-short', prop='A07', edits=[('hevc/util.go','if nalUnitSize < 2 || nalUnitSize > length-index {','if nalUnitSize < 2 || lengthSize > 1 && nalUnitSize > length-index {')],
  needs='a cut unit in a packet with one byte lengths', what='no error is reported (and the slice is taken beyond the data)',
  demo=main([HEVC], '''	buf := []byte{5, 2, 1, 0, 0, 0, 0, 0, 0, 0}
	if _, err := hevc.Mp4ToAnnexB(make([]byte, 100), buf[:3], nil, 1); err == nil {
		panic("a cut unit is accepted")
	}
''')),
 dict(id='a08-first', prop='A08', edits=[('hevc/util.go','''		} else if header == HevcNalPPS {
			pps = make''','''		} else if header == HevcNalPPS && (pps == nil || len(noStartCodeNALU) > 1) {
			pps = make''')],
  needs='a second PPS of a single byte', what='the earlier PPS is returned',
  demo=main([HEVC], '''	_, _, p, err := hevc.ParseExtraDataFromKeyNALU([]byte{0, 0, 1, 64, 9, 0, 0, 1, 66, 9, 0, 0, 1, 68, 9, 0, 0, 1, 69})
	if err != nil || len(p) != 5 || p[4] != 69 {
		panic("not the last PPS")
	}
''')),
 dict(id='a08-alias', prop='A08', edits=[('avc/util.go','''			pps = make([]byte, 4+len(noStartCodeNALU))
			binary.BigEndian.PutUint32(pps, 0x1)
			copy(pps[4:], noStartCodeNALU)''','''			if len(nalu) == 4+len(noStartCodeNALU) {
				pps = nalu
				return
			}
			pps = make([]byte, 4+len(noStartCodeNALU))
			binary.BigEndian.PutUint32(pps, 0x1)
			copy(pps[4:], noStartCodeNALU)''')],
  needs='a PPS behind a four byte start code, and a caller that reuses the frame buffer', what='the returned PPS is a view into the frame and changes with it',
  demo=main([AVC], '''	d := []byte{0, 0, 0, 1, 0x67, 9, 0, 0, 0, 1, 0x68, 7}
	_, p, err := avc.ParseExtraDataFromKeyNALU(d)
	d[11] = 8
	if err != nil || p[5] != 7 {
		panic("the PPS shares memory with the frame")
	}
''')),

 dict(id='a09-sign', prop='A09', edits=[('avc/mp4.go','ppsCount < 1 {','ppsCount < 1 || reader.ReadableBytes() < 4*int(ppsCount) {')],
  needs='a record whose picture parameter sets are all shorter than two bytes', what='the record is rejected as if it had no picture parameter set',
  demo=main([AVC], """	a := avc.AVCDecoderConfigurationRecord{}
	if a.Unmarshal([]byte{1, 100, 0, 30, 0xFF, 0xE1, 0, 4, 0x67, 100, 0, 30, 1, 0, 1, 0x68}) != nil || len(a.PPSList) != 1 {
		panic("a complete record is rejected")
	}
""")),
 dict(id='a10-three', prop='A10', edits=[('avc/mp4.go','uint16(len(noStartCodePps))','uint16((len(pps)-1)/4*4+(len(noStartCodePps)-1)%4-3)')],
  needs='a picture parameter set of particular length without, or behind a three byte, start code', what='the written length is not that of the parameter set and the record cannot be read any more',
  demo=main([AVC], """	for n := 3; n < 12; n++ {
		p := append([]byte{0, 0, 1, 0x68}, make([]byte, n)...)
		a := avc.AVCDecoderConfigurationRecord{}
		r, err := a.Marshal([][]byte{{0, 0, 0, 1, 0x67, 100, 0, 30}}, [][]byte{p})
		if err != nil || int(r[14]) != n+1 {
			panic("wrong length")
		}
	}
""")),
 dict(id='a11-bits', prop='A11', edits=[('hevc/mp4.go','binary.BigEndian.Uint16(data[13:]) & 0x0FFF','binary.BigEndian.Uint16(data[13:]) & 0x07FF')],
  needs='a record with min_spatial_segmentation_idc of 2048 or more', what='the top bit of the field is lost',
  demo=main([HEVC], """	r := make([]byte, 23)
	r[13], r[14], r[22] = 0xFF, 0xFF, 3
	for t := byte(32); t < 35; t++ {
		r = append(r, t, 0, 1, 0, 2, t<<1, 1)
	}
	a := hevc.HEVCDecoderConfigurationRecord{}
	if a.Unmarshal(r) != nil || a.MinSpatialSegmentationIdc != 0xFFF {
		panic("wrong field")
	}
""")),
 dict(id='a11-again', prop='A11', edits=[('hevc/mp4.go','r.PPSList = append(r.PPSList, nalu)','r.PPSList = append(r.VPSList, nalu)')],
  needs='a video parameter set array in front of the picture parameter sets, or two picture parameter sets', what='the list of picture parameter sets contains the video parameter set',
  demo=main([HEVC], """	r := make([]byte, 23)
	r[22] = 3
	for t := byte(32); t < 35; t++ {
		r = append(r, t, 0, 1, 0, 2, t<<1, 1)
	}
	a := hevc.HEVCDecoderConfigurationRecord{}
	if a.Unmarshal(r) != nil || len(a.PPSList) != 1 {
		panic("wrong list")
	}
""")),
 dict(id='a12-head', prop='A12', edits=[('hevc/mp4.go','writer.WriteUint16(uint16(len(noStartCodeData))); err','writer.WriteUint16(uint16(len(i2)-len(data[0])+len(noStartCodeData))); err')],
  needs='two parameter sets of one kind of which only one has a start code, or of different length', what='the written length of the second one is wrong',
  demo=main([HEVC], """	a := hevc.HEVCDecoderConfigurationRecord{}
	r, err := a.Marshal([][]byte{{64, 1, 2}}, [][]byte{{0, 0, 0, 1, 66, 1, 2}, {66, 1, 2, 3}}, [][]byte{{68, 1, 2}})
	b := hevc.HEVCDecoderConfigurationRecord{}
	if err != nil || b.Unmarshal(r) != nil || len(b.SPSList[1]) != 8 {
		panic("the record cannot be read")
	}
""")),
 dict(id='a13-short', prop='A13', edits=[('avc/util.go','reader.ReadableBytes() > 2 && unitNb == 0','reader.ReadableBytes() > 6 && unitNb == 0')],
  needs='a record with a single picture parameter set of at most three bytes', what='the extra data has no picture parameter set, without an error',
  demo=main([AVC], """	d, err := avc.M4VCExtraDataToAnnexB([]byte{1, 100, 0, 30, 0xFF, 0xE1, 0, 4, 0x67, 100, 0, 30, 1, 0, 2, 0x68, 9})
	if err != nil || len(d) != 14 {
		panic("incomplete extra data")
	}
""")),
 dict(id='a14-wrap', prop='A14', edits=[('avc/mp4.go','		sps := make([]byte, len(bytes)+4)','		sps := make([]byte, length+4)')],
  needs='a record with a sequence parameter set of at least 65532 bytes', what='the 16 bit length wraps around and the start code does not fit: panic',
  demo=main([AVC], """	r := append([]byte{1, 100, 0, 30, 0xFF, 0xE1, 0xFF, 0xFF}, make([]byte, 65535)...)
	a := avc.AVCDecoderConfigurationRecord{}
	a.Unmarshal(append(r, 1, 0, 1, 0x68))
""")),
 dict(id='a15-lists', prop='A15', edits=[('avc/sps.go','if i < 6 {','if i <= 6 {')],
  needs='a high profile set whose seventh scaling list has more than 16 places', what='the rest of the list is read as other elements and the size is wrong',
  demo=SPSDEMO % """	s := &w{}
	s.u(8, 0x67); s.u(8, 100); s.u(8, 0); s.u(8, 30)
	s.ue(0); s.ue(1); s.ue(0); s.ue(0); s.u(1, 0); s.u(1, 1)
	s.u(6, 0); s.u(1, 1)
	for i := 0; i < 64; i++ {
		s.ue(1)
	}
	s.u(1, 0)
	s.ue(0); s.ue(2); s.ue(1); s.u(1, 0); s.ue(19); s.ue(14); s.u(1, 1); s.u(1, 1); s.u(1, 0); s.u(1, 0); s.u(8, 0x80)
	r, err := avc.ParseSPS(append([]byte{0, 0, 0, 1}, s.b()...))
	if err != nil || r.Width != 320 || r.Height != 240 {
		panic("wrong size")
	}
"""),
 dict(id='a15-cycle', prop='A15', edits=[('avc/sps.go','for i := uint(0); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {','for i := uint(1); i < num_ref_frames_in_pic_order_cnt_cycle; i++ {')],
  needs='a set with picture order count type 1 and a cycle of at least one frame', what='one offset too few is skipped and the size is wrong',
  demo=SPSDEMO % """	s := &w{}
	s.u(8, 0x67); s.u(8, 66); s.u(8, 0); s.u(8, 30)
	s.ue(0); s.ue(0); s.ue(1); s.u(1, 0); s.ue(0); s.ue(0); s.ue(1); s.ue(5)
	s.ue(1); s.u(1, 0); s.ue(19); s.ue(14); s.u(1, 1); s.u(1, 1); s.u(1, 0); s.u(1, 0); s.u(8, 0x80)
	r, err := avc.ParseSPS(append([]byte{0, 0, 0, 1}, s.b()...))
	if err != nil || r.Width != 320 || r.Height != 240 {
		panic("wrong size")
	}
"""),
 dict(id='a16-skip', prop='A16', edits=[('hevc/sps.go','			if _, err = br.ReadBits32(24); err != nil {','			if _, err = br.ReadBits32(16); err != nil {')],
  needs='a set with a sub-layer whose profile is present', what='one byte too few is skipped and the size is wrong',
  demo=SPSDEMO5 % """	s := &w{}
	s.u(4, 0); s.u(3, 1); s.u(1, 1)
	s.u(8, 1); s.u(32, 0xFFFFFFFF); s.u(32, 0xFFFFFFFF); s.u(16, 0xFFFF); s.u(8, 93)
	s.u(2, 2); s.u(14, 0)
	s.u(32, 0xFFFFFFFF); s.u(32, 0xFFFFFFFF); s.u(24, 0x55FFAA)
	s.ue(0); s.ue(1); s.ue(320); s.ue(240); s.u(1, 0); s.ue(0); s.ue(0); s.ue(0); s.u(1, 1)
	for i := 0; i < 20; i++ {
		s.ue(0)
	}
	s.u(8, 0x80)
	r, err := hevc.ParseSPS(append([]byte{0, 0, 0, 1, 0x42, 1}, s.b()...))
	if err != nil || r.Width != 320 || r.Height != 240 {
		panic("wrong size")
	}
"""),
 dict(id='a16-once', prop='A16', edits=[('hevc/sps.go','[]byte{0x0, 0x0}, -1)','[]byte{0x0, 0x0}, 1)')],
  needs='a set with two emulation prevention bytes', what='the second one is read as data and the size is wrong',
  demo=SPSDEMO5 % """	s := &w{}
	s.u(4, 0); s.u(3, 0); s.u(1, 1)
	s.u(8, 1); s.u(32, 0); s.u(32, 0); s.u(16, 0); s.u(8, 93)
	s.ue(0); s.ue(1); s.ue(320); s.ue(240); s.u(1, 0); s.ue(0); s.ue(0); s.ue(0); s.u(1, 1)
	for i := 0; i < 20; i++ {
		s.ue(0)
	}
	s.u(8, 0x80)
	r, err := hevc.ParseSPS(append([]byte{0, 0, 0, 1, 0x42, 1}, s.b()...))
	if err != nil || r.Width != 320 || r.Height != 240 {
		panic("wrong size")
	}
"""),
 dict(id='a17-count', prop='A17', edits=[('hevc/mp4.go','			nalu := make([]byte, len(bytes)+4)','			nalu := make([]byte, naluLength+4)')],
  needs='a record with a parameter set of at least 65532 bytes', what='the 16 bit length wraps around and the start code does not fit: panic',
  demo=main([HEVC], """	r := append(make([]byte, 22), 1, 32, 0, 1, 0xFF, 0xFE)
	a := hevc.HEVCDecoderConfigurationRecord{}
	a.Unmarshal(append(r, make([]byte, 65535)...))
""")),
 dict(id='a17-seven', prop='A17', edits=[('hevc/sps.go','subLayerLevelPresentFlag := make([]uint, maxSubLayersMinus1)','subLayerLevelPresentFlag := make([]uint, 6)')],
  needs='a sequence parameter set that claims the reserved number of eight temporal layers', what='the flags do not fit: panic',
  demo=main([HEVC], """	s := append([]byte{66, 1, 0x0E}, make([]byte, 60)...)
	r := append(make([]byte, 22), 3, 32, 0, 1, 0, 2, 64, 1, 34, 0, 1, 0, 2, 68, 1, 33, 0, 1, 0, byte(len(s)))
	hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(append(r, s...))
""")),
]
