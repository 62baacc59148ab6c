property P12
package msgstore

# Ring buffer: sequence number s lives in slot s mod capacity.
objinv msgstore.messageRingBuffer(rb): [shape] len(rb.buf) == 4096 && rb.cur >= 1
# No two conversations share a buffer, nor two buffers their storage.
objinv msgstore.memoryMessageStore(ms): [live] all(k1, ringBufferKey, has(ms.buffers, k1) ==> (live(ms.buffers[k1]) && live(ms.buffers[k1].buf)))
objmaps map[msgstore.ringBufferKey]*msgstore.messageRingBuffer
objinv msgstore.memoryMessageStore(ms): [separate] all(k1, ringBufferKey, all(k2, ringBufferKey, (has(ms.buffers, k1) && has(ms.buffers, k2) && k1 != k2) ==> (ms.buffers[k1] != ms.buffers[k2] && ref(ms.buffers[k1].buf) != ref(ms.buffers[k2].buf))))
objmaps map[msgstore.ringBufferKey]*msgstore.messageRingBuffer
assumption fewer than 2^62 messages are appended to one in-memory buffer
global all(rb, *messageRingBuffer, rb.cur < 4611686018427387904)
nonnull M:map[msgstore.ringBufferKey]*msgstore.messageRingBuffer

helper msgstore.newMessageRingBuffer(capacity) (rb)
requires capacity == 4096
modifies nothing
ensures [empty] rb.cur == 1 && fresh(rb)
ensures [own] fresh(rb.buf)

helper (*msgstore.messageRingBuffer).Append(rb, msg) (seq)
ensures [seq] seq == old(rb.cur)
ensures [next] rb.cur == old(rb.cur) + 1
ensures [stored] rb.buf[seq % 4096] == msg
ensures [others] forall(s, 0, old(rb.cur), s + 4096 > seq ==> rb.buf[s % 4096] == old(rb.buf[s % 4096]))
ensures [samebuf] rb.buf == old(rb.buf)
modifies rb.cur, elems(rb.buf)

helper (*msgstore.messageRingBuffer).LoadLatestSeq(rb, seq, limit) (l, err)
assumes limit >= 0
let avail = ite(seq >= rb.cur, 0, ite(rb.cur - seq - 1 > 4096, 4096, rb.cur - seq - 1))
let n = ite(avail > limit, limit, avail)
ensures [error] (err != nil) == (seq > old(rb.cur))
ensures [count] len(l) == n
ensures [content] forall(i, 0, n, l[i] == rb.buf[(rb.cur - n + i) % 4096])
ensures [frame] rb.cur == old(rb.cur) && rb.buf == old(rb.buf)
loopinv [l []*irc.Message] len(l) == n && forall(i, 0, iter, l[i] == rb.buf[(rb.cur - n + i) % 4096])
modifies nothing

# Message IDs: encoding verified under P13; here only that it is injective in
# the sequence number.
trusted msgstore.formatMemoryMsgID(netID, entity, seq) (id)
pure
trusted msgstore.parseMemoryMsgID(s) (netID, entity, seq, err)
pure

func (*msgstore.memoryMessageStore).Append(ms, network, entity, msg) (id, err)
let k = ringBufferKey{network.ID, entity}
let kept = msg.Command == "PRIVMSG" || msg.Command == "NOTICE"
let had = has(ms.buffers, k)
let seq = ite(has(ms.buffers, k), ms.buffers[k].cur, 1)
ensures [ok] err == nil
ensures [id] kept ==> id == formatMemoryMsgID(network.ID, entity, seq)
ensures [next] kept ==> (has(ms.buffers, k) && ms.buffers[k].cur == seq + 1)
ensures [stored] kept ==> ms.buffers[k].buf[seq % 4096] == msg
ensures [earlier] (kept && had) ==> forall(s, 0, seq, s + 4096 > seq ==> ms.buffers[k].buf[s % 4096] == old(ms.buffers[k].buf[s % 4096]))
ensures [others] all(k2, ringBufferKey, k2 != k ==> (has(ms.buffers, k2) == old(has(ms.buffers, k2)) && ms.buffers[k2] == old(ms.buffers[k2]) && (has(ms.buffers, k2) ==> (ms.buffers[k2].cur == old(ms.buffers[k2].cur) && forall(s, 0, 4096, ms.buffers[k2].buf[s] == old(ms.buffers[k2].buf[s]))))))

func (*msgstore.memoryMessageStore).LastMsgID(ms, network, entity, t) (id, err)
let k = ringBufferKey{network.ID, entity}
ensures [last] err == nil && id == formatMemoryMsgID(network.ID, entity, ite(has(ms.buffers, k), ms.buffers[k].cur - 1, 0))

func (*msgstore.memoryMessageStore).LoadLatestID(ms, ctx, id, options) (l, err)
assumes options.Limit >= 0
let k = ringBufferKey{options.Network.ID, options.Entity}
let seq = nth(2, parseMemoryMsgID(id))
let bad = options.Events || nth(3, parseMemoryMsgID(id)) != nil
let cur = ite(has(ms.buffers, k), ms.buffers[k].cur, 1)
let avail = ite(seq >= cur, 0, ite(cur - seq - 1 > 4096, 4096, cur - seq - 1))
let n = ite(avail > options.Limit, options.Limit, avail)
ensures [rejects] bad ==> (err != nil && len(l) == 0)
ensures [error] (!bad && has(ms.buffers, k)) ==> ((err != nil) == (seq > cur))
ensures [count] err == nil ==> len(l) == n
ensures [content] err == nil ==> forall(i, 0, n, l[i] == ms.buffers[k].buf[(cur - n + i) % 4096])
