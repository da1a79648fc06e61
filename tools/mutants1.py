import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
B='ring/buffer.go'
mut.run([
 ('noRelease-on-full',B,"			r.readLock.Release()\n			wrote = i\n","			wrote = i\n"),
 ('reader-no-release-midread',B,"			if read > 0 {\n				r.writeLock.Release()\n			}\n\n			next","			next"),
 ('stale-start',B,"				r.writeLock.Wait()\n				start = atomic.LoadInt32(&r.start)","				r.writeLock.Wait()\n				start = start + 1"),
 ('close-drop',B,"				closed := r.ctx.Err() != nil\n				next = atomic.LoadInt32(&r.next)\n				if pos != next {\n					break\n				}\n","				closed := r.ctx.Err() != nil\n"),
 ('n>wrote+1',B,"if n > wrote {","if n > wrote+1 {"),
 ('lossy-release',B,"ch:  make(chan struct{}, 1),","ch:  make(chan struct{}),"),
 ('nonatomic',B,"atomic.StoreInt32(&r.next, pos)\n\n	// if","r.next = pos\n\n	// if"),
 ('publish-before-copy',B,"		r.data[pos] = data[i]\n		pos = incr(pos, r.size)\n","		p := pos\n		pos = incr(pos, r.size)\n		if i == n-1 {\n			atomic.StoreInt32(&r.next, pos)\n		}\n		r.data[p] = data[i]\n"),
], ['C01','C02'])
