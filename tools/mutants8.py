import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
D='message/decoder.go'; E='message/encoder.go'; G='message/messages.gen.go'; S='message/sizeof/sizeof.go'; R='gen.record_batch.go'
MT="	// Partitions\n	if n, err := d.ArrayLength(); err != nil {\n		return err\n	} else if n >= 0 {\n		t.Partitions = make([]MetadataResponsePartition3, n)\n		for i := 0; i < n; i++ {\n			var item MetadataResponsePartition3\n"
HT="		for i := 0; i < n; i++ {\n			var item MetadataResponseTopic3\n"
M=[
(['C12','C13'],('hoist-item',(G,HT,HT.replace('\t\tfor','\t\tvar item MetadataResponseTopic3\n\t\tfor').replace('\t\t\tvar item MetadataResponseTopic3\n','')))),
(['C12','C14'],('bytes-64k',(D,"	if err := d.remains(length); err != nil {\n		return nil, err\n	}\n\n	a, b := d.offset","	if length > 1<<16 {\n		length = 1 << 16\n	}\n	if err := d.remains(length); err != nil {\n		return nil, err\n	}\n\n	a, b := d.offset"))),
(['C12','C14'],('putbytes-64k',(E,"	e.PutInt32(int32(len(data)))\n	if e.err == nil {\n		_, e.err = e.target.Write(data)","	e.PutInt32(int32(len(data)))\n	for e.err == nil && len(data) > 1<<16 {\n		_, e.err = e.target.Write(data[:1<<16])\n		data = data[1<<16-1:]\n	}\n	if e.err == nil {\n		_, e.err = e.target.Write(data)"))),
(['C12','C14'],('i32arr-cap',(D,"	items := make([]int32, n)\n	for i := 0; i < n; i++ {","	if n > 4096 {\n		n = 4096\n	}\n	items := make([]int32, n)\n	for i := 0; i < n; i++ {"))),
(['C12','C14'],('strarr-cap',(D,"	items := make([]string, n)\n	for i := 0; i < n; i++ {","	if n > 1000 {\n		n = 1000\n	}\n	items := make([]string, n)\n	for i := 0; i < n; i++ {"))),
(['C12','C13'],('meta-cap',(G,MT,MT.replace("t.Partitions = make([]MetadataResponsePartition3, n)","if n > 200 {\n			n = 200\n		}\n		t.Partitions = make([]MetadataResponsePartition3, n)")))),
(['C14','C12'],('trim-nul',(D,"	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray","	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	if length > 1 && s[length-1] == 0 {\n		s = s[:length-1]\n	}\n	return s, nil\n}\n\n// StringArray"))),
(['C14','C20'],('varbytes-big',(S,"	length := len(data)\n	return VarInt(int64(length)) + int32(length)","	length := len(data)\n	if length >= 1<<20 {\n		return 3 + int32(length)\n	}\n	return VarInt(int64(length)) + int32(length)"))),
(['C11'],('size-first',(G,"	for i := len(t.Partitions) - 1; i >= 0; i-- {\n		sz += t.Partitions[i].Size(version)\n	}","	if n := len(t.Partitions); n > 0 {\n		sz += int32(n) * t.Partitions[n-1].Size(version)\n	}"))),
(['C14'],('sizeof-arr16',(S,"	return ArrayLength + int32(len(ii))*Int64","	return ArrayLength + int32(uint16(len(ii)))*Int64"))),
(['C14','C12'],('arrlen16',(E,"	length := len(ii)\n	e.PutArrayLength(length)\n	for _, i := range ii {\n		e.PutInt64(i)","	length := int(uint16(len(ii)))\n	e.PutArrayLength(length)\n	for _, i := range ii[:length] {\n		e.PutInt64(i)"))),
(['C20'],('reclen-16',(R,"	for _, m := range r.Records {\n		encodeMessage","	for i, m := range r.Records {\n		if i >= 1000 {\n			m.Header = nil\n		}\n		encodeMessage"))),
(['C14'],('int32-hi',(D,"	v := int32(binary.BigEndian.Uint32(d.raw[d.offset:]))","	v := int32(d.raw[d.offset])<<24 | int32(d.raw[d.offset+1])<<16 + int32(d.raw[d.offset+2])<<8 + int32(int8(d.raw[d.offset+3]))&0xff"))),
(['C15'],('stale-varint',(D,"binary.Varint(d.raw[d.offset:d.length])","binary.Varint(d.raw[d.offset:])"))),
(['C15'],('reset-nolen',(D,"	d.length = length\n	d.offset = 0","	if length > d.length {\n		d.length = length\n	}\n	d.offset = 0"))),
(['C15'],('discard-loose',(D,"	if err := d.remains(n); err != nil {\n		return err\n	}\n\n	d.offset += n","	if n > len(d.raw)-d.offset {\n		return io.ErrShortBuffer\n	}\n\n	d.offset += n"))),
(['C15'],('str-eof',(D,"	length := int(n)\n	if err := d.remains(length); err != nil {\n		return \"\", err\n	}\n\n	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray","	length := int(n)\n	if err := d.remains(length); err != nil {\n		if d.offset == d.length {\n			return \"\", io.ErrUnexpectedEOF\n		}\n		return \"\", err\n	}\n\n	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray"))),
(['C16'],('flush-notwice',(E,"		e.err = f.Flush()\n	}\n\n	return e.err","		if err := f.Flush(); err != nil {\n			return err\n		}\n	}\n\n	return e.err"))),
(['C16'],('i32arr-err',(E,"	if ii == nil {\n		e.PutInt32(-1)\n		return\n	}\n\n	length := len(ii)\n	e.PutArrayLength(length)\n	for _, i := range ii {\n		e.PutInt32(i)\n	}","	if ii == nil {\n		e.PutInt32(-1)\n		return\n	}\n\n	length := len(ii)\n	e.PutArrayLength(length)\n	for _, i := range ii {\n		binary.BigEndian.PutUint32(e.buf[:4], uint32(i))\n		_, e.err = e.target.Write(e.buf[:4])\n	}"))),
(['C16'],('str-retry',(E,"		_, e.err = io.WriteString(e.target, s)\n	}\n}\n\n// PutStringArray","		var n int\n		n, e.err = io.WriteString(e.target, s)\n		if e.err != nil && n > 0 {\n			_, e.err = io.WriteString(e.target, s[n:])\n		}\n	}\n}\n\n// PutStringArray"))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
