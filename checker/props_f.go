package main

var propsF = []prop{
	{id: "F01", title: "Time stamps are converted between time bases exactly", both: true, min: 6,
		statement: "Converting a time stamp to another time base gives the exact value rounded towards zero, never overflows while the result fits, keeps the order of time stamps, and loses nothing on the way to a finer time base that is a multiple. Time stamps, their difference and the duration of a packet are converted the same way and asking for them does not change the packet. A time base of zero gives zero.",
		over:      []string{"inputs"}, quant: "time stamps up to 2^40 in magnitude (and up to 2^62 where the result fits), 13 x 13 time bases from 1 to 10^7 that include the ones of all containers and the usual sample rates",
		why:     tests + "rounding and overflow errors need particular values.",
		files:   []string{"packet_utils.go", "av_packet.go"},
		mech:    [][2]string{{"conversion", "avformat.ConvertTs"}, {"packets", "avformat.AVPacket.ConvertDts/ConvertPts/GetDuration/GetPtsDtsDelta"}},
		observe: "the converted values",
		explain: "The analysis represents quotients and remainders exactly as new integers with linear defining inequalities, for every pair of time bases, and proves got*src <= ts*dst < (got+1)*src.",
		limits:  "time bases other than the 13."},
	{id: "F02", title: "Packets are converted between framings completely and once", both: true, min: 10,
		statement: "The Annex B form of a length-prefixed H.264 or H.265 packet has all its units behind start codes and nothing else, for lengths of one to four bytes, with the extra data in front of key frames; the length-prefixed form of an Annex B packet has all its units behind their lengths. A conversion is done once, in memory of the packet's owner when it provides some, and leaves the packet's own data alone. Annex B key frames get the parameter sets in front when they have none. Other packets are returned as they are. No malformed length-prefixed packet makes the conversion panic.",
		over:      []string{"inputs"}, quant: "packets of two units of any size and content (up to 2^20 bytes, or the range of the length), every extra data; for safety every packet content with every length size; every codec",
		why:     tests + "one sample frame; overruns and lost units need particular sizes.",
		files:   []string{"packet_utils.go", "avc/util.go", "hevc/util.go"},
		mech:    [][2]string{{"to Annex B", "avformat.AVCCPacket2AnnexB"}, {"to length prefixes", "avformat.AnnexBPacket2AVCC"}, {"extra data", "avformat.AVCCPacket2AnnexB"}},
		observe: "the results and AVPacket.Data",
		explain: "Units are symbolic segments of any size. The client walks through the result and compares an arbitrary byte of every unit; the capacity of the result's memory is proved sufficient by linear inequalities, including a rate between input and output for short lengths.",
		limits:  "packets of more than two units (their conversion is claimed by A05 and A07 for the functions below); the capacity for Annex B packets of more than two units."},
	{id: "F03", title: "Packet memory of streams is kept apart and complete", both: true, min: 3,
		statement: "What is written to a stream's memory, in one or several parts, is pending there, and is fetched as one block with exactly these bytes, in order; nothing of another stream's. After the fetch nothing is pending. Fetched blocks stay unchanged while others are written, fetched and discarded at either end. The pipeline without buffers returns what was written directly.",
		over:      []string{"inputs", "histories"}, quant: "every stream number, media type, content and size below 2^20 of up to four writes, two streams",
		why:     tests + "sharing between streams shows only with interleaved writes.",
		files:   []string{"streams_buffer.go", "direct_pipeline.go", "collections/buffer_rb.go"},
		mech:    [][2]string{{"a buffer for each stream", "avformat.StreamsBuffer.findOrCreateStreamBuffer"}, {"blocks", "avformat.StreamsBuffer.Write/Fetch/DiscardHeadPacket/DiscardBackPacket"}, {"direct", "avformat.DirectDataPipeline"}},
		observe: "the DataPipeline interface",
		explain: "Sequences of operations on symbolic sizes; one arbitrary byte of every block is compared.",
		limits:  "longer histories are claimed by D02 for the memory below."},
	{id: "F04", title: "Track lists keep order and find the first match", both: true, min: 3,
		statement: "A list of tracks keeps tracks in the order of addition and numbers them; looking up a media type or a codec finds the first track that has it, or none. A muxer accepts one track of each media type, gives it the next place, and refuses any second one without keeping it. A stream made by hand has exactly what it was made of.",
		over:      []string{"inputs", "histories"}, quant: "lists of up to four tracks of arbitrary types and codecs, every lookup; muxers with up to four additions",
		why:     tests + "lookups are tested with one track of a type.",
		files:   []string{"tracks.go", "track.go", "muxer.go", "av_stream.go"},
		mech:    [][2]string{{"lookups", "avformat.TrackManager.Add/Find/FindTrackWithType"}, {"muxer", "avformat.BaseMuxer.AddTrack"}, {"streams", "avformat.NewAVStream"}},
		observe: "TrackManager, BaseMuxer and AVStream",
		explain: "Additions of tracks with symbolic types and codecs; the client searches itself and compares."},
	{id: "F05", title: "Codecs and media types have their FFmpeg ids and their names", min: 2,
		statement: "The codecs that have a name (H263, H264, H265, VP8, VP9, AV1, AAC, MP3, PCMA, PCMU, OPUS, G722, G726, PCMS16LE) and the media types have the ids that they have in FFmpeg, and each has its own name.",
		over:      []string{"inputs"}, quant: "the 14 named codecs and the 7 media types",
		why:     tests + "ids and names are what other programs and logs are matched with.",
		files:   []string{"utils/codec_id.go", "utils/av_util.go"},
		mech:    [][2]string{{"names", "utils.AVCodecID.String/AVMediaType.String"}},
		observe: "the constants and String",
		explain: "The analysis evaluates String on every constant and compares with a table.",
		limits:  "codecs without a name."},
}
