import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
M='message/messages.gen.go'; D='message/decoder.go'; E='message/encoder.go'; S='message/sizeof/sizeof.go'
import glob,os
S=[os.path.relpath(f,'/repo') for f in glob.glob('/repo/message/sizeof/*.go') if not f.endswith('_test.go')][0]
L=[
 (['C13'],'swap-both',(M,"	e.PutInt32Array(t.ReplicaNodes) // ReplicaNodes\n	e.PutInt32Array(t.IsrNodes)     // IsrNodes\n","	e.PutInt32Array(t.IsrNodes)     // IsrNodes\n	e.PutInt32Array(t.ReplicaNodes) // ReplicaNodes\n"),(M,"	t.ReplicaNodes, err = d.Int32Array()\n	if err != nil {\n		return err\n	}\n	t.IsrNodes, err = d.Int32Array()","	t.IsrNodes, err = d.Int32Array()\n	if err != nil {\n		return err\n	}\n	t.ReplicaNodes, err = d.Int32Array()")),
 (['C11','C12','C13'],'putbytes-255',(E,"	e.PutInt32(int32(len(data)))\n	if e.err == nil {","	e.PutInt32(int32(len(data)))\n	if e.err == nil && len(data) != 255 {")),
 (['C12'],'dec-cap',(D,"	items := make([]int32, n)\n	for i := 0; i < n; i++ {","	if n > 128 {\n		n = 128\n	}\n	items := make([]int32, n)\n	for i := 0; i < n; i++ {")),
 (['C11'],'sz-str',(S,"	return Int16 + int32(len(s))","	return Int16 + int32(int8(len(s)&0x7f)) + int32(len(s))&^0x7f*0+int32(len(s)>>7<<7)%65536")),
 (['C14'],'sz-varint',(S,"	length := binary.PutVarint(buf[:], i)\n	return int32(length)","	length := binary.PutVarint(buf[:], i)\n	if i == -1<<63 {\n		length = 9\n	}\n	return int32(length)")),
 (['C15'],'remains-raw',(D,"remain := d.length - d.offset; remain < n","remain := len(d.raw) - d.offset; remain < n")),
 (['C15'],'varint-limit',(D,"d.raw[d.offset:d.length]","d.raw[d.offset:]")),
 (['C15'],'reset-off',(D,"	d.offset = 0\n}","}")),
 (['C16'],'putint8-cont',(E,"	if e.err != nil {\n		return\n	}\n\n	e.buf[0]","	e.buf[0]")),
 (['C16'],'varbytes',(E,"	e.PutVarInt(int64(len(data)))\n	if e.err == nil {\n","	e.PutVarInt(int64(len(data)))\n	{\n")),
 (['C14'],'str-utf8',(D,"	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray","	s := string([]rune(string(d.raw[d.offset : d.offset+length])))\n	d.offset += length\n	return s, nil\n}\n\n// StringArray")),
 (['C14','C13'],'bool1',(D,"d.raw[d.offset] != 0","d.raw[d.offset] == 1")),
 (['C12','C15'],'swallow',(M,"	t.IsrNodes, err = d.Int32Array()\n	if err != nil {\n		return err\n	}\n","	t.IsrNodes, err = d.Int32Array()\n	if err != nil && version > 6 {\n		return err\n	}\n")),
 (['C13'],'nilbytes',(E,"	e.PutInt32(int32(len(data)))\n	if e.err == nil {","	if data == nil {\n		e.PutInt32(-1)\n		return\n	}\n	e.PutInt32(int32(len(data)))\n	if e.err == nil {")),
]
names=sys.argv[1:]
for ids,name,*ed in L:
    if names and name not in names: continue
    try: mut.run([(name,)+tuple(ed)],ids)
    except AssertionError as e: print('NOAPPLY',e)
