package main

var propsE = []prop{
	{id: "E01", title: "Demuxer callbacks come in order: tracks, completion, packets", client: "e01", tag: "callbacks", both: true, min: 8,
		statement: "A demuxer announces every track once, in the order of creation, and all of them before it reports that the tracks are complete; it reports that once, or reports that no track was found when there is none. No packet is delivered before. Every delivered packet is of an announced track: its index, media type, codec and time base are those of the track's stream.",
		over:      []string{"inputs", "histories"}, quant: "every sequence of five calls out of an audio packet, a video packet, a video track and the end of probing, with and without AutoFree, in a container with one track of a type (jt1078) and in one with several (ts), and any number of packets afterwards; time stamps, sizes and key flags are arbitrary",
		why:     tests + "the order of callbacks depends on the history of packets on all tracks and on when probing ends.",
		files:   []string{"demuxer.go", "av_packet.go", "av_stream.go"},
		mech:    [][2]string{{"end of probing", "avformat.BaseDemuxer.OnProbeComplete"}, {"tracks", "avformat.BaseDemuxer.AddTrack/OnNewAudioTrack/OnNewVideoTrack"}, {"forwarding", "avformat.BaseDemuxer.forwardPacket"}},
		observe: "the calls of the handler",
		explain: "The client is a handler and a data pipeline that check every call against what was given to the demuxer so far. All call sequences are enumerated, their time stamps and sizes are symbolic, so the order of the packets that were kept while probing is covered by the orders of symbolic decoding times.",
		limits:  "more than five calls before the tracks are complete; codecs whose tracks are made of parsed extra data (E05, E06); calls of one demuxer from several goroutines.",
		assume:  []string{"the pool of packets may hand out a freed packet at once or a new one; a packet's fields after recycling are claimed by E07"}},
	{id: "E02", title: "Demuxer delivers every packet once, in order, with its duration", client: "e01", tag: "delivery", both: true, min: 8,
		statement: "Every packet given to a demuxer is delivered once, with the data, decoding and presentation time stamps, key flag and buffer index it was given with, except that the last packet of each track is held back until its successor is known. The packets of a track are delivered in the order in which they were given; packets kept while probing are delivered in the order of their decoding times over all tracks. The duration of a delivered packet is the distance of its decoding time to that of the next packet of its track. The preprocessing hook sees every video packet once, before it is kept, and what it changes is delivered.",
		over:      []string{"inputs", "histories"}, quant: "every sequence of five calls out of an audio packet, a video packet, a video track and the end of probing, with and without AutoFree, in a container with one track of a type (jt1078) and in one with several (ts), and any number of packets afterwards; time stamps, sizes and key flags are arbitrary",
		why:     tests + "a lost, repeated or reordered packet needs particular time stamps on two tracks around the end of probing.",
		files:   []string{"demuxer.go", "av_packet.go"},
		mech:    [][2]string{{"one packet is held back, its duration", "avformat.BaseDemuxer.processBufferedPacket"}, {"packets of the probe", "avformat.BaseDemuxer.OnProbeComplete"}, {"hook", "avformat.BaseDemuxer.OnVideoPacket"}},
		observe: "OnPacket of the handler",
		explain: "The same client as E01: every delivered packet is identified by its data and compared with what was sent. A second client starts after the end of probing and compares one further packet with its specification, after any number of packets.",
		limits:  "more than five calls before the tracks are complete; the last packets when a stream ends (they are not delivered); calls of one demuxer from several goroutines."},
	{id: "E03", title: "Demuxer gives back every packet's memory once and not too early", client: "e01", tag: "blocks", both: true, min: 8,
		statement: "The memory of a packet stays with the demuxer until the packet was delivered. With AutoFree the demuxer then discards the oldest block of the buffer the packet came from, exactly once for each delivered packet and for no other buffer; without AutoFree it discards none. The block of a packet for which there is no track is discarded once, as the newest block of its buffer.",
		over:      []string{"inputs", "histories"}, quant: "every sequence of five calls out of an audio packet, a video packet, a video track and the end of probing, with and without AutoFree, in a container with one track of a type (jt1078) and in one with several (ts), and any number of packets afterwards",
		why:     tests + "a block given back twice or under the wrong index shows only as corrupted data much later.",
		files:   []string{"demuxer.go", "collections/buffer_rb.go"},
		mech:    [][2]string{{"AutoFree", "avformat.BaseDemuxer.forwardPacket"}, {"refused packets", "avformat.BaseDemuxer.OnAudioPacket/OnVideoPacket"}},
		observe: "DiscardHeadPacket and DiscardBackPacket of the data pipeline",
		explain: "The same client as E01: the data pipeline counts the discards of every buffer and compares them after every call.",
		limits:  "more than five calls before the tracks are complete."},
	{id: "E04", title: "Probing ends exactly when a track covers the probe duration", both: true, min: 5,
		statement: "Probing ends with the first packet with which the durations of one track's packets add up to the probe duration, in milliseconds, whatever the time base of the container; durations below 200 ms count as 200 ms. It ends by hand at any time, too, and only once. It is not ended by an attempt while a track of raw audio (PCM or G.726) has one packet only.",
		over:      []string{"inputs", "histories"}, quant: "every probe duration, every sequence of four packets (thorough: five) on an audio and a video track and of six on one track, every non-decreasing sequence of time stamps below 2^40, in milliseconds and in 90 kHz",
		why:     tests + "off-by-one and unit errors in the sum show only for particular time stamps.",
		files:   []string{"demuxer.go"},
		mech:    [][2]string{{"sum of durations", "avformat.BaseDemuxer.processBufferedPacket"}, {"end", "avformat.BaseDemuxer.OnProbeComplete/TryCompleteProbe"}, {"probe duration", "avformat.BaseDemuxer.SetProbeDuration"}},
		observe: "BaseDemuxer.Completed and OnTrackComplete",
		explain: "The client adds up the durations itself; both sums are linear in the symbolic time stamps (with quotients for 90 kHz), and their comparison with the symbolic probe duration must agree after every packet.",
		limits:  "more than six packets; decoding times that run backwards."},
	{id: "E05", title: "Demuxer makes the right track for each elementary stream", both: true, min: 10,
		statement: "A new track gets the next free number, and its stream has the media type, codec, time base of the container and a copy of the extra data. Only a transport stream has more than one track of a media type. An AAC track takes its configuration, sample rate and channels from the MPEG-4 audio configuration, or from the ADTS header of its first frame; a frame without a header makes no track. No track appears after the tracks are complete. Packets belong to the track of the buffer they came from. The block of extra data and of refused packets is given back once.",
		over:      []string{"inputs", "histories"}, quant: "every extra data, every two-byte MPEG-4 configuration with a valid frequency, every ADTS header, every codec without parsed extra data, two tracks and two buffers in every order",
		why:     tests + "no test creates tracks through a demuxer with more than one input.",
		files:   []string{"demuxer.go", "av_stream.go", "utils/aac_util.go", "video_stream.go"},
		mech:    [][2]string{{"tracks", "avformat.BaseDemuxer.OnNewAudioTrack/OnNewVideoTrack/AddTrack"}, {"AAC configuration", "utils.ParseMpeg4AudioConfig/ADtsHeader2MpegAudioConfigData"}, {"tracks of a buffer", "avformat.BaseDemuxer.findTrackByBufferIndex"}},
		observe: "BaseDemuxer.Tracks and the streams in it",
		explain: "Each unit makes tracks through the demuxer from symbolic extra data and headers and compares the streams. The configuration of ADTS frames is compared with the fields of the symbolic header."},
	{id: "E06", title: "Video tracks are made from parameter sets without losing any", both: true, min: 12,
		statement: "Codec data made from H.264 or H.265 parameter sets has these sets, in order, in its lists, in its Annex B extra data (each behind a four-byte start code) and in its configuration record; codec data read from a record has the sets and the record. Width and height are those of the sequence parameter set. A demuxer makes a video track from the first key frame that carries parameter sets, or from a configuration record, which the stream copies; frames before that are dropped and their blocks given back; something that is no record makes no track.",
		over:      []string{"inputs", "histories"}, quant: "every picture parameter set and video parameter set, of any size below 2^16 or with arbitrary content, around one H.264 and one H.265 sequence parameter set (parsing of any sequence parameter set is claimed by A16 and A17), every frame around them",
		why:     tests + "one recorded stream; the order and completeness of sets in both forms depends on their sizes and content.",
		files:   []string{"codec_paraments.go", "video_stream.go", "av_stream.go", "demuxer.go", "avc/avc.go", "hevc/hevc.go", "avc/util.go", "hevc/util.go"},
		mech:    [][2]string{{"codec data", "avformat.NewAVCCodecData/NewHEVCCodecData/ParseAVCDecoderConfigurationRecord"}, {"streams", "avformat.CreateAVCStreamFromKeyFrame/CreateHevcStreamFromKeyFrame"}, {"tracks", "avformat.BaseDemuxer.OnNewVideoTrack/OnVideoPacket"}},
		observe: "CodecData and AVStream",
		explain: "The sequence parameter set is a constant, everything else is symbolic; the client compares an arbitrary byte of every part of the extra data and of the record."},
	{id: "E07", title: "A recycled packet is like a new one", both: true, min: 4,
		statement: "A packet made by the constructors has exactly the fields it was made of, whatever the packet that the pool hands out was used for before: no data, converted data, duration, flag, codec or allocator of an earlier packet remains. A freed packet keeps no data alive, and a packet that was not freed is not handed out.",
		over:      []string{"inputs", "histories"}, quant: "every previous content of the packet (all fields, also unexported), every argument",
		why:     tests + "the pool hands out used packets only after others were freed, and tests free none.",
		files:   []string{"av_packet.go"},
		mech:    [][2]string{{"reset", "avformat.FreePacket"}, {"constructors", "avformat.NewAudioPacket/NewVideoPacket"}},
		observe: "all fields of AVPacket",
		explain: "A packet with arbitrary fields is freed, the pool hands it out again, and all fields are compared with those of a packet from an empty pool."},
	{id: "E08", title: "Audio tracks get the rates that their packets show", both: true, min: 5,
		statement: "When probing ends, a 16 bit mono PCM track gets the sample rate 8000, 16000, 32000 or 48000 that the size and duration of its first packet have, a G.726 track the bit rate 16000, 24000, 32000 or 40000; whatever the packets, no other rate is set and nothing is divided by zero. The rates are set before the track is announced. G.711 tracks have 8000 Hz, 16 bits and one channel. The header of an AAC frame has nine bytes with a check sum and seven without.",
		over:      []string{"inputs"}, quant: "every packet size below 2^30 and distance below 2^20 ms, containers in milliseconds and in 90 kHz, with and without a video track before; every ADTS header",
		why:     tests + "the rates are computed from sizes and durations at the end of probing, which no test reaches for raw audio.",
		files:   []string{"demuxer.go", "video_stream.go"},
		mech:    [][2]string{{"PCM", "avformat.BaseDemuxer.calculatePCMFrequency"}, {"G.726", "avformat.BaseDemuxer.calculateG726BitRate"}, {"AAC", "avformat.ExtractAudioExtraData"}},
		observe: "the stream in OnNewTrack; the results of ExtractAudioExtraData",
		explain: "Packets of symbolic size and distance go through the demuxer; the size divided by the duration is decided as a known multiple.",
		limits:  "which rate a packet gets that fits none exactly."},
	{id: "E09", title: "No stream content makes a demuxer panic", panics: true, min: 8,
		statement: "Giving a demuxer any audio or video packet, any extra data or configuration record for a new track, of any codec, and ending the probe never panics, in a container with configuration records (flv) and in one with start codes (ts).",
		over:      []string{"inputs", "histories"}, quant: "every packet and extra data of every length and content, every codec for audio, H.264 and H.265 for video, up to three packets with arbitrary time stamps",
		why:     tests + "hostile or truncated extra data and frames are not sampled.",
		files:   []string{"demuxer.go", "video_stream.go", "codec_paraments.go", "avc/mp4.go", "hevc/mp4.go", "utils/aac_util.go"},
		mech:    [][2]string{{"tracks", "avformat.BaseDemuxer.createAudioTrack/createVideoTrack"}, {"AAC", "avformat.ExtractAudioExtraData"}, {"codec data", "avformat.generateVideoCodecData"}},
		observe: "panics",
		explain: "The demuxer, the track creation and the readers of configuration records are analysed on arbitrary bytes, every run-time check has to be proved.",
		assume:  []string{"The parsers of sequence parameter sets return, without panicking (A15, A16); their results are arbitrary here.", "Extracting parameter sets from a key frame does not panic (A01)."},
		limits:  "H.264 and H.265 key frames with start codes that create a track by themselves: the extraction of their parameter sets is claimed by A01, the track creation by this property."},
}
