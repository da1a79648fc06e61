"""Write MANIFEST.json from properties.jsonl and the table in ./check (run with python3-vt)."""
import json,subprocess,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
sys.path.insert(0,'/verif')
src=open('/verif/check').read()
import re
done=re.findall(r'"(C\d\d)":',src)
LN={
'ring':("TLA+ design model (RingAlg) checked by TLC incl. liveness, with an invariant proved inductive for every size by Apalache (RingInd); TLC-enumerated and seeded programs run on the real ring under controlled schedules, traces judged by TLC (RingTrace)","Design: exhaustive for small rings, inductive for all sizes; on the code every statement-boundary preemption of the enumerated programs up to the stated budget, plus race-detector runs. Assumes one reader and one writer."),
'conn':("TLA+ connection spec (Conn/ConnAlg) checked by TLC; TLC-enumerated fault scripts replayed on real connections over an in-memory peer, recorded traces judged by TLC (ConnTrace)","Design exhaustive for 2 calls/2 responses/1 close; code explored over TLC-enumerated scripts and seeded schedules with exact quiescence (synctest). Trusts the in-memory transport and the yield-point instrumentation."),
}
LN.update({
'codec':("TLA+ specification of the Kafka wire format (Schema/Wire/Encoder) evaluated by TLC: bytes and values recorded from the real codec judged by TLC (CodecTrace), bytes generated from the spec by TLC (CodecGen) replayed into the real decoder","Every message type at every version, covering value profiles plus seeded values; bounded value sizes. The schema table in the spec is written from the Kafka protocol definitions, independent of the code."),
'robust':("TLA+ wire and connection specs: TLC-generated valid bytes mutated and replayed into the real decoder and connections; outcomes judged by TLC (CodecTrace, ConnTrace)","Mutated/truncated/hostile inputs over all message types and connection frames; sampled, not exhaustive."),
})
LN.update({
'cluster':("TLA+ specification of version negotiation, broker sessions and the client (Negotiate, Cluster, design models NegotiateAlg, ClusterAlg and ParallelAlg checked by TLC); TLC-enumerated offers and client fates replayed on real brokers/clients over scripted in-memory servers, recorded traces judged by TLC (ClusterTrace, over Wire/Schema; ParallelTrace for overlapping client operations)","All edge offers of every API, all 48 operations at every version, every combination of server fates up to three bootstrap servers; request/response values sampled. Trusts the in-memory transport."),
})
LN.update({
'trans':("TLA+ specification of transport options (Transport, design model TransportAlg checked by TLC); TLC-enumerated option sequences and peers run on real connections, brokers and clients over loopback TCP/TLS, what the peers saw judged by TLC (TransportTrace)","Every sequence of up to three options (four thorough) against seven classes of peers, concrete dialers/TLS configurations sampled. Trusts crypto/tls and the loopback network; a dialer is recognised by its local address."),
})

LN.update({
'iso':("TLA+ specification: several connections are the product of single ones (Isolation design model with shared-state variants, checked by TLC); TLC-enumerated histories of one connection interleaved with others on real connections, every connection's recorded trace judged by TLC (ConnTrace)","Design exhaustive for 2 connections with 2 calls each; code explored over TLC-enumerated and seeded scripts for 2-6 connections with exact quiescence (synctest), plus race-detector runs over loopback TCP."),
'pure':("TLA+ specification of read-only, repeatable operations (Pure, design model PureAlg checked by TLC); TLC-enumerated histories of size/encode/decode/send/query replayed on real values, recorded digests judged by TLC (PureTrace); the same under the race detector in parallel","All message types, record batches, all 48 operations, clients, dialers and TLS configurations; values and histories sampled. Contents compared by digest."),
})

mods=dict(re.findall(r'"(C\d\d)": "(\w+)"',src))
man={"version":1,"setup_cmd":"true","hooks":{"guard":"Go build tag: verif","enable":"go test -tags verif (plus -overlay for yield points generated at check time)","source_commits":["152f7cf"]},"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in mods:
        t,n=LN[mods[i]] if mods[i] in LN else LN[i]
        man['checks'].append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"model_checking","level_note":n})
    else: man['not_applicable'].append({"property":i,"reason":"check under construction"})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
