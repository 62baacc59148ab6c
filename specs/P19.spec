property P19
package soju
option inline 40

# min/max/jitter are configured once; n doubles while n*min stays below max.
objinv soju.backoffer(b): [range] b.min > 0 && b.min <= b.max && b.max <= 1152921504606846975 && b.jitter >= 0 && b.jitter <= 1152921504606846975 && b.n >= 0 && b.n * b.min <= 2 * b.max

# the clock (ghost): it only moves forward, and sleeping moves it
gvar clock int
gvar attempts int
gvar lastAttempt int
gvar lastOK bool
assumption time.Now reads a monotonic clock; time.Sleep(d) lasts at least d

trusted time.Now() (t)
modifies clock
ensures t == clock && clock >= old(clock) && clock > 0
trusted time.Sleep(d)
modifies clock
ensures clock >= old(clock) && clock >= old(clock) + d
trusted (time.Time).Sub(t, u) (d)
ensures u != 0 ==> d == t - u
ensures u == 0 ==> d == 9223372036854775807
pure
trusted math/rand.Int63n(n) (r)
requires n > 0
ensures r >= 0 && r < n
modifies nothing

helper soju.newBackoffer(min, max, jitter) (b)
requires min > 0 && min <= max && max <= 1152921504606846975 && jitter >= 0 && jitter <= 1152921504606846975
ensures [config] b.min == min && b.max == max && b.jitter == jitter && b.n == 0 && fresh(b)
modifies nothing
inline

helper (*soju.backoffer).Reset(b)
ensures [reset] b.n == 0
modifies b.n

func (*soju.backoffer).Next(b) (d)
let base = ite(b.n * b.min > b.max, b.max, b.n * b.min)
ensures [first] old(b.n) == 0 ==> (d == 0 && b.n == 1)
ensures [lower] old(b.n) != 0 ==> (d >= base && d >= b.min)
ensures [upper] old(b.n) != 0 ==> (d <= base + b.jitter && d <= b.max + b.jitter)
ensures [grows] old(b.n) != 0 ==> b.n == ite(old(b.n * b.min > b.max), old(b.n), 2 * old(b.n))
ensures [config] b.min == old(b.min) && b.max == old(b.max) && b.jitter == old(b.jitter)
modifies b.n

# one connection attempt; after a failed one the next must wait at least a minute
trusted (*soju.network).runConn(net, ctx) (err)
requires [spacing] attempts == 0 || lastOK || clock >= lastAttempt + 60000000000
ghostmod attempts, lastAttempt, lastOK, clock
ensures attempts == old(attempts) + 1 && lastAttempt == old(clock) && lastOK == (err == nil) && clock >= old(clock)

func (*soju.network).run(net)
assumes attempts == 0 && clock > 0
loopinv [b *backoffer, t =net.Network.ID] b.min == 60000000000
loopinv [b *backoffer] attempts >= 0 && ((attempts > 0 && !lastOK) ==> b.n >= 1)
loopinv [t time.Time] attempts > 0 ==> (t == lastAttempt && t > 0 && t <= clock)
