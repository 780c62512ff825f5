refs = [
 dict(id='r-fsc-simple', props=['A01','A02','A03','A04'], edits=[('avc/util.go','''	length := len(p)
	i := 2

	for i < length {
		if p[i] > 1 {
			i += 3
		} else if p[i-1] != 0 {
			i += 2
		} else if (p[i-2] | (p[i] - 1)) != 0 {
			i++
		} else {
			i++
			break
		}
	}

	if i < length {
		// 计算start code长度
		size := 3
		if i > 3 && p[i-4] == 0x0 {
			size++
		}

		return i, size
	} else {
		return -1, -1
	}
''','''	for i := 0; i+3 < len(p); i++ {
		if p[i] == 0 && p[i+1] == 0 && p[i+2] == 1 {
			if i > 0 && p[i-1] == 0 {
				return i + 3, 4
			}
			return i + 3, 3
		}
	}

	return -1, -1
''')]),
 dict(id='r-fsc-switch', props=['A01','A02','A03','A04'], edits=[('avc/util.go','''	length := len(p)
	i := 2

	for i < length {
		if p[i] > 1 {
			i += 3
		} else if p[i-1] != 0 {
			i += 2
		} else if (p[i-2] | (p[i] - 1)) != 0 {
			i++
		} else {
			i++
			break
		}
	}

	if i < length {
		// 计算start code长度
		size := 3
		if i > 3 && p[i-4] == 0x0 {
			size++
		}

		return i, size
	} else {
		return -1, -1
	}
''','''	length := len(p)
	for i := 3; i < length; {
		switch {
		case p[i-1] > 1:
			i += 3
		case p[i-2] != 0:
			i += 2
		case p[i-3] != 0 || p[i-1] != 1:
			i++
		default:
			return i, startCodeSize(p, i)
		}
	}

	return -1, -1
'''), ('avc/util.go','''// FindStartCode 返回NalUHeader''','''// startCodeSize 计算start code长度
func startCodeSize(p []byte, header int) int {
	if header >= 4 && p[header-4] == 0 {
		return 4
	}
	return 3
}

// FindStartCode 返回NalUHeader''')]),
 dict(id='r-split-loop', props=['A01','A02'], edits=[('avc/util.go','''	var offset int
	// +3查找第二个nalu
	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
		n += 3
		cb(data[offset : offset+n])
		offset += n
	}

	// 回调最后一个nalu
	cb(data[offset:])
''','''	// +3查找第二个nalu
	remain := data
	for {
		n := FindStartCode2(remain[3:])
		if n < 0 {
			break
		}

		nalu := remain[:n+3]
		remain = remain[n+3:]
		cb(nalu)
	}

	// 回调最后一个nalu
	cb(remain)
''')]),
 dict(id='r-key-if', props=['A01','A04'], edits=[('avc/util.go','''	index := 0
	for {
		n, _ := FindStartCode(p[index:])
		if n < 0 {
			return false
		}

		index += n
		state := p[index]
		switch state & 0x1F {
		case H264NalSEI, H264NalAUD, H264NalPPS, H264NalSPS:
			break
		case H264NalIDRSlice:
			return true
		case H264NalSlice:
			return false
		default:
			return false
		}
	}
''','''	for n, _ := FindStartCode(p); n >= 0; n, _ = FindStartCode(p) {
		p = p[n:]
		unitType := p[0] & 0x1F
		if unitType < H264NalSEI || unitType > H264NalAUD {
			return unitType == H264NalIDRSlice
		}
	}

	return false
''')]),
 dict(id='r-remove', props=['A01','A03'], edits=[('avc/util.go','''	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
		return data
	} else if data[2] == 0x1 {
		return data[3:]
	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
		return data[4:]
	}

	return data
''','''	for _, code := range [][]byte{StartCode3, StartCode4} {
		if bytes.HasPrefix(data, code) {
			return data[len(code):]
		}
	}

	return data
'''), ('avc/util.go','import (\n','import (\n\t"bytes"\n')]),
 dict(id='r-reader-peek', props=['A01','B01'], edits=[('bufio/bytes_buffer.go','''	end := b.offset + size
	if b.length < end || end < 0 {
		return fmt.Errorf("slice bounds out of range [:%d] with length %d", b.offset+size, b.length)
	}

	b.offset = end
	return nil
''','''	if size > b.length-b.offset || size < -b.offset {
		return fmt.Errorf("slice bounds out of range [:%d] with length %d", b.offset+size, b.length)
	}

	b.offset += size
	return nil
''')]),
 dict(id='r-reader-next', props=['A01','B01'], edits=[('bufio/bytes_reader.go','''	if err := b.peekN(2); err != nil {
		return 0, err
	}

	return binary.BigEndian.Uint16(b.data[b.offset-2:]), nil
''','''	data, err := b.ReadBytes(2)
	if err != nil {
		return 0, err
	}

	return uint16(data[0])<<8 | uint16(data[1]), nil
'''),('bufio/bytes_reader.go','''	return binary.BigEndian.Uint32(b.data[b.offset-4:]), nil
''','''	tmp := b.data[b.offset-4 : b.offset]
	return uint32(tmp[0])<<24 | uint32(tmp[1])<<16 | uint32(tmp[2])<<8 | uint32(tmp[3]), nil
''')]),
 dict(id='r-parse-key', props=['A01'], edits=[('avc/util.go','''		if byte(H264NalSPS) == header {
			sps = make([]byte, 4+len(noStartCodeNALU))
			binary.BigEndian.PutUint32(sps, 0x1)
			copy(sps[4:], noStartCodeNALU)
		} else if byte(H264NalPPS) == header {
			pps = make([]byte, 4+len(noStartCodeNALU))
			binary.BigEndian.PutUint32(pps, 0x1)
			copy(pps[4:], noStartCodeNALU)
		}
''','''		switch int(header) {
		case H264NalSPS:
			sps = append(append(make([]byte, 0, 4+len(noStartCodeNALU)), StartCode4...), noStartCodeNALU...)
		case H264NalPPS:
			pps = append(append(make([]byte, 0, 4+len(noStartCodeNALU)), StartCode4...), noStartCodeNALU...)
		}
''')]),
]
