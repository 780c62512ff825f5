package main

var propsC = []prop{
	{id: "C01", title: "AAC headers and configurations never panic", panics: true, min: 7,
		statement: "Reading an ADTS header or an AAC configuration, asking a header for any of its fields, converting it to a configuration, writing one into at least 7 bytes, and looking up sample rates never panic, whatever the bytes and values.",
		over:      []string{"inputs"}, quant: "every byte string, every 64 bit header value and every integer argument",
		why:     tests + "table lookups are indexed by input bits, and out-of-range codes are rare in real streams.",
		files:   []string{"utils/aac_util.go"},
		mech:    [][2]string{{"length guards", "utils.ReadADtsFixedHeader, utils.ParseMpeg4AudioConfig"}, {"channel table bound", "utils.ParseMpeg4AudioConfig"}},
		observe: "the exported functions of utils/aac_util.go",
		explain: "Every run-time check reachable from the units is proved safe for arbitrary arguments."},
	{id: "C02", title: "The ADTS header follows its layout and survives a round trip", min: 4,
		statement: "Every field of an ADTS header is read from, and written to, exactly its bits of the ISO 13818-7 layout: what is written with in-range values is read back unchanged, with no checksum, buffer fullness 0x7FF and one raw data block, and only 7 bytes are written. Input of less than 7 bytes or without the sync word is an error, anything else is read.",
		over:      []string{"inputs"}, quant: "all 2^56 headers, all in-range field values, and every input length",
		why:     tests + "no test reads or writes an ADTS header, and a field shifted by a bit shows only for values that use the bit.",
		files:   []string{"utils/aac_util.go"},
		mech:    [][2]string{{"bit positions", "utils.SetADtsHeader"}, {"bit positions", "utils.ADtsHeader"}, {"guards", "utils.ReadADtsFixedHeader"}},
		observe: "utils.SetADtsHeader, utils.ReadADtsFixedHeader and the methods of utils.ADtsHeader",
		explain: "Symbolic bytes and symbolic field values: every accessor is compared bit by bit with the layout, and the composition of writing and reading with the identity."},
	{id: "C03", title: "AAC configurations agree with their bits and with the ADTS header", min: 4,
		statement: "Parsing an AudioSpecificConfig yields the object type, sampling index and channel configuration of its bits and the sample rate and channel count ISO 14496-3 assigns to them; a reserved channel configuration and input of less than two bytes are errors. The configuration made from an ADTS header parses to the header's profile plus one, sampling index and channels.",
		over:      []string{"inputs"}, quant: "every configuration of any length, all index combinations, every ADTS header",
		why:     tests + "no test parses a configuration; a wrong table entry or mask shows only for its own index.",
		files:   []string{"utils/aac_util.go"},
		mech:    [][2]string{{"bit positions", "utils.ParseMpeg4AudioConfig, utils.ADtsHeader2MpegAudioConfigData"}, {"tables", "utils.audioSamplingRates, utils.mpeg4AudioChannels"}},
		observe: "utils.ParseMpeg4AudioConfig and utils.ADtsHeader2MpegAudioConfigData",
		explain: "Symbolic bytes are compared bit by bit with the layout; the tables are compared for every index pair."},
	{id: "C04", title: "Sample rate indices and rates are inverse", min: 3,
		statement: "The 13 AAC sampling frequency indices and rates map to each other in both directions; an index without a rate never yields a positive rate, and a rate without an index yields a negative index.",
		over:      []string{"inputs"}, quant: "every integer index and every non-negative rate",
		why:     tests + "only some rates occur in practice, so a wrong entry goes unnoticed.",
		files:   []string{"utils/aac_util.go"},
		mech:    [][2]string{{"table", "utils.audioSamplingRates"}, {"search", "utils.GetSampleRateIndex"}},
		observe: "utils.GetSampleRateFromFrequency and utils.GetSampleRateIndex",
		explain: "The defined indices are followed one by one; the others as arbitrary integers outside the table."},
}
