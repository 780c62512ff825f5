package main

var propsA = []prop{
	{id: "A01", title: "Scanning untrusted bytes for NAL units never panics", panics: true, min: 11,
		statement: "Searching a byte string for start codes, splitting it into NAL units, stripping start codes, testing for key frames and extracting parameter sets from a key frame never panic, whatever the bytes and however short the string.",
		over:      []string{"inputs"}, quant: "every byte string of every length, including the empty one, and for the reader variant every cursor position",
		why:   tests + "an out-of-range access needs one particular length or alignment of start codes at the end of the data.",
		files: []string{"avc/util.go", "hevc/util.go", "packet_utils.go", "bufio/bytes_reader.go"},
		mech: [][2]string{{"bounds of the skipping start code search", "avc.FindStartCode"}, {"short input guards", "avc.SplitNalU, avc.RemoveStartCode"},
			{"empty unit guard", "avc.ParseExtraDataFromKeyNALU, hevc.ParseExtraDataFromKeyNALU"}},
		observe: "avc.FindStartCode, avc.FindStartCode2, avc.FindStartCodeWithReader, avc.SplitNalU, avc.RemoveStartCode, IsKeyFrame, ParseExtraDataFromKeyNALU",
		explain: "Every run-time check (index, slice, nil, division, allocation, shift) that the scanning functions can reach is proved safe for arbitrary input by abstract interpretation with linear inequalities; an undischarged check is reported with its position."},
	{id: "A02", title: "Splitting into NAL units partitions the input at start codes", min: 3,
		statement: "Splitting a byte string into NAL units delivers consecutive, gap-free, in-place pieces that together are exactly the input. Every piece but the last ends where a 3 or 4 byte start code that a byte follows begins, and no start code begins inside a piece past the place for its own.",
		over:      []string{"inputs"}, quant: "every byte string and every placement of start codes in it",
		why:     tests + "they split no data with adjacent, truncated or four byte start codes, and a lost or shifted byte shows only for some of these.",
		files:   []string{"avc/util.go"},
		mech:    [][2]string{{"advance by the distance to the next start code", "avc.SplitNalU"}, {"start code search", "avc.FindStartCode2"}},
		observe: "the slices passed to avc.SplitNalU's callback",
		explain: "Three contract clients: the pieces are consecutive sub-slices covering the input; each boundary carries a start code; a start code planted at an arbitrary position never lies inside a piece. The loop invariants are computed by the analysis; each client requirement must hold in every abstract state."},
	{id: "A03", title: "Start code search is exact", min: 7,
		statement: "The start code search returns the header position of the first start code that a byte follows, with its true size (4 exactly when a further zero byte precedes it within the data), and reports none only when there is none; the reader variant leaves its cursor just behind the header. Removing a start code removes exactly a leading 3 or 4 byte start code.",
		over:      []string{"inputs"}, quant: "every byte string, every start code position and every reader position",
		why:     tests + "the search skips bytes, so a wrong skip is seen only for particular byte values at particular alignments.",
		files:   []string{"avc/util.go", "bufio/bytes_reader.go"},
		mech:    [][2]string{{"skipping search", "avc.FindStartCode"}, {"start code size", "avc.FindStartCode"}, {"cursor", "avc.FindStartCodeWithReader"}},
		observe: "results of avc.FindStartCode, FindStartCode2, FindStartCodeWithReader, RemoveStartCode",
		explain: "A start code is planted at an arbitrary position of arbitrary data and the search must not report a later position or none (completeness); whatever is reported must be a start code with the right size (soundness). Decided by abstract interpretation with symbolic array elements."},
	{id: "A04", title: "Key frame classification follows the first deciding NAL unit", min: 4,
		statement: "An H.264 access unit is a key frame exactly when its first unit that is not SEI, access unit delimiter, SPS or PPS is an IDR slice; an H.265 one exactly when its first unit that is not VPS, SPS, PPS, delimiter or SEI is an IRAP picture (types 16 to 23). Data without units and other codecs are never key frames.",
		over:      []string{"inputs"}, quant: "every header byte of the deciding unit, every non-deciding prefix of up to two units with payloads of any length, both start code sizes",
		why:     tests + "no test classifies a frame, and the decision depends on the header values of several units.",
		files:   []string{"avc/util.go", "hevc/util.go", "packet_utils.go"},
		mech:    [][2]string{{"type switch", "avc.IsKeyFrame"}, {"IRAP range", "hevc.IsKeyFrame"}, {"codec dispatch", "IsKeyFrame"}},
		observe: "results of IsKeyFrame",
		explain: "The clients assemble frames of one to three units with arbitrary headers and payloads of arbitrary length and bytes 2..255, and require the classification.",
		limits:  "payload bytes 0 and 1 are excluded from the assembled frames (start code search is A03); at most two non-deciding units precede the deciding one."},
	{id: "A05", title: "H.264 length-prefixed packets convert to Annex B without loss", min: 5,
		statement: "Converting an H.264 packet with 4 byte lengths to Annex B writes every unit but SEI, in order and unchanged, behind a start code; the stream's first start code has 4 bytes. The extra data goes in front of an IDR slice that neither SPS nor PPS precedes in the packet, and nowhere else. The conversion ends at a unit that is empty or cut, and returns the number of bytes written.",
		over:      []string{"inputs"}, quant: "packets of up to three units of every type and of any size and content, extra data of any size, and cut packets",
		why:     tests + "they convert no packet; which branch is taken depends on unit types, their order and the presence of extra data.",
		files:   []string{"avc/util.go"},
		mech:    [][2]string{{"extra data in front of IDR slices", "avc.AVCC2AnnexB"}, {"start codes", "avc.copyNalUWithBytes"}, {"size check", "avc.AVCC2AnnexB"}},
		observe: "the bytes written by avc.AVCC2AnnexB and its result",
		explain: "The clients assemble packets from units of chosen type and symbolic size and content, convert them and compare the output piece by piece, at an arbitrary index of each piece, with a reference built from the statement.",
		limits:  "packets of at most three units; unit and extra data sizes below 1 MiB; a destination that is large enough (see F02)."},
	{id: "A06", title: "Annex B frames convert to length-prefixed form without loss", min: 4,
		statement: "Converting an Annex B frame to length-prefixed form writes for each unit its 4 byte big endian length and its bytes unchanged, in order, whichever start code size precedes it, and returns the number of bytes written; data without a unit yields nothing.",
		over:      []string{"inputs"}, quant: "frames of up to three units with both start code sizes in every combination, and any unit size",
		why:     tests + "they convert no frame; a length wrong by the start code size shows only for mixed start codes.",
		files:   []string{"avc/util.go"},
		mech:    [][2]string{{"unit end", "avc.AnnexB2AVCC"}, {"start code search", "avc.FindStartCode"}},
		observe: "the bytes written by avc.AnnexB2AVCC and its result",
		explain: "The clients assemble frames from units of symbolic size, convert them and compare lengths and, at an arbitrary index, contents.",
		limits:  "frames of at most three units of bytes 2..255 (start code search is A03), each below 1 MiB."},
	{id: "A07", title: "H.265 length-prefixed packets convert to Annex B without loss", min: 4,
		statement: "Converting an H.265 packet whose lengths have 1 to 4 bytes to Annex B writes every unit, in order and unchanged, behind a 4 byte start code, with the extra data in front of the packet's first IRAP unit and nowhere else, and returns the number of bytes written. A unit smaller than its header, or a cut unit or length, is reported as an error.",
		over:      []string{"inputs"}, quant: "packets of up to three units of every type and of any size and content, all length sizes, extra data of any size, and cut packets",
		why:     tests + "the tests convert no packet; length size, IRAP position and extra data combine.",
		files:   []string{"hevc/util.go"},
		mech:    [][2]string{{"length loop", "hevc.Mp4ToAnnexB"}, {"first IRAP unit", "hevc.Mp4ToAnnexB"}, {"size checks", "hevc.Mp4ToAnnexB"}},
		observe: "the bytes written by hevc.Mp4ToAnnexB and its results",
		explain: "The clients assemble packets from units of chosen type class, length size and symbolic size and content, convert them and compare the output piece by piece, at an arbitrary index, with a reference built from the statement.",
		limits:  "packets of at most three units; sizes below 1 MiB; a destination that is large enough (see F02)."},
	{id: "A08", title: "Parameter sets are extracted from key frames as private, framed copies", min: 3,
		statement: "Extracting the parameter sets of an H.264 or H.265 frame returns, for each kind, a 4 byte start code followed by exactly the last unit of that kind in the frame, in memory not shared with the frame, and an error when a kind is missing.",
		over:      []string{"inputs", "histories"}, quant: "every three unit frame (four for H.265) over parameter sets and other units, every unit size, both start code sizes",
		why:     tests + "no test extracts parameter sets, and one of wrong length, or one that shares the caller's buffer and changes later, is still accepted.",
		files:   []string{"avc/util.go", "hevc/util.go"},
		mech:    [][2]string{{"private copies", "avc.ParseExtraDataFromKeyNALU"}, {"unit types", "hevc.ParseExtraDataFromKeyNALU"}},
		observe: "results of ParseExtraDataFromKeyNALU",
		explain: "The clients assemble frames from units of chosen kind, with symbolic sizes, and compare each result with the last unit of its kind at an arbitrary index; memory identity is decided by allocation site.",
		limits:  "unit bytes 2..255 and sizes below 1 MiB."},
	{id: "A09", title: "Reading an AVC configuration record yields exactly its parameter sets", both: true, min: 3,
		statement: "Reading an AVC decoder configuration record yields every sequence and picture parameter set exactly once and in order, each as a 4 byte start code and exactly the bytes in the record, in private memory, together with the version, profile, compatibility, level and length size fields. Records that end early, or have no sequence or no picture parameter set, are rejected.",
		over:      []string{"inputs"}, quant: "every header, one or two parameter sets of each kind of every size from 0 to 65535 and every content, any trailing bytes; every truncation of a record with one of each kind",
		why:     tests + "one record; a wrong length, order or kind needs particular sizes and counts.",
		files:   []string{"avc/mp4.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"walk over the lengths", "avc.AVCDecoderConfigurationRecord.Unmarshal"}, {"bounded reads", "bufio.BytesReader.ReadBytes"}},
		observe: "fields of the record after Unmarshal",
		explain: "The client assembles the record from symbolic parts, so that the position of every part is a linear expression, and compares the result at an arbitrary index.",
		limits:  "more than two parameter sets of a kind (the loop is the same for each)."},
	{id: "A10", title: "Writing an AVC configuration record is exact or an error", both: true, min: 3,
		statement: "Writing an AVC decoder configuration record yields the layout of ISO/IEC 14496-15: version 1, profile, compatibility and level of a sequence parameter set, four byte lengths, then the number of sequence parameter sets, each with its 16 bit length and without its start code, then the same for picture parameter sets, and nothing else. A record that cannot be represented is an error, never a truncated record.",
		over:      []string{"inputs"}, quant: "one or two parameter sets of each kind, of every size up to 65535 and every content, each without or with a start code of 3 or 4 bytes",
		why:     tests + "one pair of parameter sets; start code sizes and sizes near the buffer limit are not sampled.",
		files:   []string{"avc/mp4.go", "avc/util.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"layout", "avc.AVCDecoderConfigurationRecord.Marshal"}, {"start codes", "avc.RemoveStartCode"}},
		observe: "result of Marshal",
		explain: "The client passes symbolic parameter sets and checks every field of the result, and each parameter set at an arbitrary index, for all sizes at once.",
		limits:  "parameter sets that begin with a zero byte; with two of a kind, picture parameter sets of less than three bytes."},
	{id: "A11", title: "Reading an HEVC configuration record yields its parameter sets by kind", both: true, min: 4,
		statement: "Reading an HEVC decoder configuration record yields every video, sequence and picture parameter set exactly once, in order within its kind, each as a 4 byte start code and exactly the bytes in the record, in private memory, whatever the order of the arrays and whatever other arrays there are; and every header field as ISO/IEC 14496-15 places it. Records that end early or lack a kind are rejected.",
		over:      []string{"inputs"}, quant: "every header, all six orders of the arrays with an array of any other type at any place, every size from 0 to 65535 and every content, every truncation",
		why:     tests + "one record from one encoder: order of arrays, other arrays and most header bits are fixed there.",
		files:   []string{"hevc/mp4.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"walk over arrays", "hevc.HEVCDecoderConfigurationRecord.Unmarshal"}},
		observe: "fields of the record after Unmarshal",
		explain: "The client assembles the record from symbolic parts and compares all fields bit by bit and each list at an arbitrary index.",
		limits:  "more than two units in an array; the LengthSizeMinusOne field holds the size itself, which the property follows."},
	{id: "A12", title: "Writing an HEVC configuration record is exact or an error", both: true, min: 2,
		statement: "Writing an HEVC decoder configuration record yields version 1, four byte lengths and three arrays in the order video, sequence, picture, each with its type, its count and its parameter sets with 16 bit lengths and without start codes, and nothing else. A record that cannot be represented, or lacks a kind, is an error.",
		over:      []string{"inputs"}, quant: "one video, one or two sequence and one picture parameter set of every size from 3 to 65535 and every content, each without or with a start code of 3 or 4 bytes",
		why:     tests + "no test writes an HEVC record.",
		files:   []string{"hevc/mp4.go", "avc/util.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"layout", "hevc.HEVCDecoderConfigurationRecord.Marshal"}, {"start codes", "avc.RemoveStartCode"}},
		observe: "result of Marshal",
		explain: "As for A10.",
		limits:  "the profile and level fields, which the function leaves zero."},
	{id: "A13", title: "Annex B extra data has every parameter set of the record in order", both: true, min: 3,
		statement: "Converting a configuration record to Annex B extra data yields, for H.264, the sequence and then the picture parameter sets, for H.265 the video, the sequence and then the picture parameter sets, each behind a 4 byte start code with exactly its bytes in the record, and nothing else; or an error, never a part.",
		over:      []string{"inputs"}, quant: "every record of two sequence and one or two picture parameter sets (H.265: one of each kind, arrays in three orders), every size from 0 to 65535 and every content",
		why:     tests + "one record per codec; sizes near the limit of the buffer and several parameter sets are not sampled.",
		files:   []string{"avc/mp4.go", "hevc/mp4.go", "avc/util.go", "bufio/bytes_buffer.go"},
		mech:    [][2]string{{"conversion", "avc.ExtraDataToAnnexB"}, {"conversion", "hevc.ExtraDataToAnnexB"}, {"conversion without limit", "avc.M4VCExtraDataToAnnexB"}},
		observe: "results of the three conversions",
		explain: "The client assembles the record from symbolic parts and checks the result part by part at an arbitrary index."},
	{id: "A14", title: "H.264 configuration data never panics", panics: true, min: 6,
		statement: "Reading an AVC configuration record, converting it to Annex B, building codec data with its sequence parameter set from it, extracting parameter sets from a key frame and writing a record from parameter sets never panic, whatever the bytes and however short the input.",
		over:      []string{"inputs"}, quant: "every byte string of every length (as record, as key frame and as each of up to two sequence and two picture parameter sets), and every outcome of every bit read of the sequence parameter set",
		why:     tests + "records and parameter sets of real streams; truncated, oversized and inconsistent ones are not sampled.",
		files:   []string{"avc/mp4.go", "avc/sps.go", "avc/util.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go"},
		mech:    [][2]string{{"record", "avc.(*AVCDecoderConfigurationRecord).Unmarshal"}, {"record", "avc.(*AVCDecoderConfigurationRecord).Marshal"}, {"sequence parameter set", "avc.ParseSPS"}, {"conversion", "avc.ExtraDataToAnnexB, avc.M4VCExtraDataToAnnexB"}},
		observe: "the functions above and avc.NewCodecDataFromAVCDecoderConfigurationRecord",
		explain: "Every run-time check that the functions can reach is proved safe for arbitrary input. The bit reader's answers are unconstrained (its own safety is B04).",
		limits:  "Record writing is analysed for up to two parameter sets of a kind; their number is an append-only loop."},
	{id: "A15", title: "The H.264 sequence parameter set is read as the standard defines it", both: true, min: 5,
		statement: "Parsing an H.264 sequence parameter set never panics; a complete set yields the profile, constraint flags, level, identifier, size in macroblocks, cropping and the displayed width and height that clause 7.3.2.1.1 defines (crop units by chroma format and field coding, emulation prevention bytes removed, scaling lists and picture order count cycles skipped); a set that ends early is an error.",
		over:      []string{"inputs"}, quant: "every value of every syntax element, every profile with and without chroma format, each picture order count type, each scaling list present, full or cut short, any truncation point, and arbitrary bytes for absence of panics",
		why:     tests + "a few parameter sets of one camera; chroma formats, cropping with fields, scaling lists and truncation inside an element are not sampled.",
		files:   []string{"avc/sps.go", "bufio/golomb_reader.go"},
		mech:    [][2]string{{"syntax", "avc.ParseSPS"}, {"emulation prevention", "avc.ParseSPS: bytes.Replace"}},
		observe: "avc.ParseSPS",
		assume:  []string{"The bit reader answers with the next bits and codes of its input (property B04)."},
		explain: "The specification reads a symbolic bit stream element by element; ParseSPS reads the same stream through the bit reader, so any element read at another place, in another order, with another width or coding, or skipped, leaves the fields unprovable.",
		limits:  "One scaling list at a time; picture order count cycles of up to two; video usability information is only checked for panics; the frame rate (floating point) is not covered."},
	{id: "A16", title: "The H.265 sequence parameter set is read as the standard defines it", both: true, min: 5,
		statement: "Parsing an H.265 sequence parameter set never panics; a complete set yields the coded size and the displayed width and height that clause 7.3.2.2.1 defines (profile, tier and level of every sub-layer skipped, conformance window in units of the chroma format, emulation prevention bytes removed); a set that ends before its window is an error.",
		over:      []string{"inputs"}, quant: "every value of every syntax element, up to seven temporal layers with every single and the full choice of present sub-layer profiles and levels, each chroma format, any truncation point, and arbitrary bytes for absence of panics",
		why:     tests + "a parameter set of one encoder with one layer; sub-layers, other chroma formats and truncation inside an element are not sampled.",
		files:   []string{"hevc/sps.go", "bufio/golomb_reader.go"},
		mech:    [][2]string{{"syntax", "hevc.ParseSPS"}, {"profile, tier and level", "hevc.parsePTL"}, {"emulation prevention", "hevc.nal2rbsp"}},
		observe: "hevc.ParseSPS",
		assume:  []string{"The bit reader answers with the next bits and codes of its input (property B04)."},
		explain: "The specification reads a symbolic bit stream element by element; ParseSPS reads the same stream through the bit reader, so any element read at another place, in another order, with another width or coding, or skipped, leaves the sizes unprovable.",
		limits:  "Sub-layer presence is checked for none, all and each single one, not for all combinations."},
	{id: "A17", title: "H.265 configuration data never panics", panics: true, min: 5,
		statement: "Reading an HEVC configuration record, converting it to Annex B, building codec data with its sequence parameter set from it, extracting parameter sets from a key frame and writing a record from parameter sets never panic, whatever the bytes and however short the input.",
		over:      []string{"inputs"}, quant: "every byte string of every length (as record, as key frame and as one video, up to two sequence and two picture parameter sets), and every outcome of every bit read of the sequence parameter set",
		why:     tests + "a record of one stream; truncated, oversized and inconsistent ones are not sampled.",
		files:   []string{"hevc/mp4.go", "hevc/sps.go", "hevc/util.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go"},
		mech:    [][2]string{{"record", "hevc.(*HEVCDecoderConfigurationRecord).Unmarshal"}, {"record", "hevc.(*HEVCDecoderConfigurationRecord).Marshal"}, {"sequence parameter set", "hevc.ParseSPS"}, {"conversion", "hevc.ExtraDataToAnnexB"}},
		observe: "the functions above and hevc.NewCodecDataFromHEVCDecoderConfigurationRecord",
		explain: "Every run-time check that the functions can reach is proved safe for arbitrary input. The bit reader's answers are unconstrained (its own safety is B04).",
		limits:  "Record writing is analysed for up to two parameter sets of a kind; their number is an append-only loop."},
}
