prop("P11","Names that a case-mapping equates always denote the same entry",
 "Each of the three case-mappings (ascii, rfc1459, rfc1459-strict) leaves a name's length and unmapped bytes alone, lower-cases exactly A-Z, folds exactly its own extra characters and is idempotent, and an announced case-mapping name selects the mapping of that name or none. A case-mapped table finds an entry under every spelling its case-mapping equates with the name it was stored under and under no other, keeps the first spelling used, lists every entry exactly once under that spelling, removes exactly the entry asked for, and still does so after the case-mapping is changed.",
 ["inputs","histories"],"all byte strings as names, all sequences of table operations, all case-mapping changes",
 "tests try a handful of ASCII names; the folded characters, non-ASCII bytes, changes of case-mapping in mid-session and every interleaving of table operations cannot be enumerated",
 ["xirc/casemapping.go"],[("case-mapping functions","xirc/casemapping.go"),("case-mapped table","xirc/casemapping.go CaseMappingMap")],
 "Every operation of the table and the three case-mapping loops are proved for all strings and all tables, for every instantiation of the generic table in the program; two entries whose names become equal under a new case-mapping are merged (one of them is kept), which is the documented behaviour.")
prop("P12","In-memory history replays exactly the missed messages, in order",
 "The in-memory message store gives every stored PRIVMSG or NOTICE of a conversation the next sequence number, retains the most recent 4096 of each conversation, and never lets a conversation's messages overwrite, reorder or show up in another network's or target's history. Loading the latest messages since an ID returns, in order, exactly the retained messages stored after that ID, cut to the newest ones allowed by the limit, and the store's last-message ID denotes the most recent message, so that loading since it returns nothing until something new is stored.",
 ["inputs","histories"],"all sequences of appends and loads over all conversations, all limits >= 0, including every wrap-around of the buffer",
 "wrap-around and off-by-one errors depend on how many messages arrived before and after the marker; the number of histories is unbounded",
 ["msgstore/memory.go"],[("ring buffer","msgstore/memory.go messageRingBuffer"),("store","msgstore/memory.go memoryMessageStore")],
 "Proved for all buffer states and all limits >= 0; the ID encoding is treated as an uninterpreted function of network, target and sequence number; fewer than 2^62 messages per conversation.")
prop("P19","Reconnection attempts are spaced by a bounded exponential back-off",
 "After a failed attempt to connect to an upstream server, the next attempt for the same network starts no sooner than one minute after the previous one started, and the wait grows by doubling up to a cap of ten minutes plus at most one minute of jitter, however many attempts fail in a row. The first attempt, and the first one after a connection that ended cleanly, is not delayed by the back-off.",
 ["histories","inputs"],"all histories of failing and succeeding connection attempts, all values of the clock and of the random source",
 "a test cannot wait for dozens of failed attempts minutes apart, which is where the multiplier overflows or the spacing is lost",
 ["rate.go","user.go"],[("back-off","rate.go backoffer"),("reconnect loop","user.go network.run")],
 "The back-off arithmetic is proved with 64-bit wrap-around for all configurations with 0 < min <= max < 2^60; the reconnect loop is proved against a ghost clock (time.Now monotonic, time.Sleep(d) lasts at least d).")
prop("P16","Member ranks and user modes are exactly those granted and not revoked",
 "Granting a rank to a channel member adds exactly that rank, revoking one removes exactly that one, and whatever the order of the changes the member's ranks stay free of duplicates and sorted from highest to lowest as the server ranks them; likewise each user mode letter is present exactly when it was last set rather than unset. A nickname of a NAMES reply is split into the ranks its leading prefixes denote and the remaining nickname, and a client is shown all of a member's prefixes in rank order when it negotiated multi-prefix and otherwise only the highest one.",
 ["inputs","histories"],"all lists of distinct ranks, all sets reached by any history of grants and revocations, all strings",
 "the sorted insertion depends on which ranks are already present and on the server's own rank list; tests cover none of it",
 ["xirc/xirc.go","irc.go","upstream.go"],[("rank set","xirc/xirc.go MembershipSet"),("user modes","irc.go userModes"),("prefix parsing","upstream.go parseMembershipPrefix"),("prefix display","irc.go formatMemberPrefix")],
 "Proved for all rank lists without duplicates and all sets that are sorted (which the contracts preserve); mode letters are ASCII.")

prop("P03","Only administrators can manage accounts and the server",
 "The service commands reserved to administrators (user status, user create, user run and the server commands) are carried out only for requests made on the admin socket or by a user whose admin flag is set. Everyone else can change only their own account, by its exact name, and of it neither the admin flag, nor the network limit, nor whether it is enabled; they can delete only their own account. A user name never changes. Accounts are created only by administrators, or, without the admin flag, at authentication when the server is set up to do so.",
 ["inputs","histories"],"all command lines (words, flags, abbreviations, their order), all users, all sequences of commands and of events handed from one user's goroutine to another's",
 "the command grammar (abbreviated commands, optional user names, flag combinations) has no end, and the check is spread over the dispatcher, each handler and the events they send",
 ["service.go","user.go","server.go","downstream.go"],[("dispatch","service.go handleServiceCommand"),("handlers","service.go handleUserUpdate, handleUserDelete, handleUserRun"),("events","user.go user.run"),("account creation","server.go createUser")],
 "Authority is a ghost variable: every handler is verified under the authority its dispatcher established, every event sent to another user's goroutine carries the obligation that its sender had it, and every write to an account record and every database deletion is an obligation. The admin socket is trusted to be reachable by administrators only; the database is trusted to store what it is given.")
prop("P02","An authenticator accepts a user only on the evidence its backend requires",
 "The internal authenticator accepts a name and password only if the account of exactly that name has a stored password hash and the password matches it (an account without one cannot log in with a password), and storing a renewed hash never changes which password the account has. The HTTP authenticator accepts only if the server was sent exactly that name and password and answered 200. The OAuth 2.0 authenticator accepts a token only if the introspection endpoint answered 200, that the token is active, and a non-empty user name, and then for that user name only; as a password, a token is accepted only for the user name it was issued to. The configured driver is the one that is used.",
 ["inputs","faults"],"all names, passwords and tokens, all stored accounts, all answers and failures of the HTTP servers and of the database",
 "what an authentication server may answer (status codes, missing fields, errors) cannot be enumerated, and one accepted answer too many is a login for anyone",
 ["auth/auth.go","auth/internal.go","auth/http.go","auth/oauth2.go","database/database.go"],[("internal","auth/internal.go AuthPlain, database/database.go CheckPassword"),("HTTP","auth/http.go AuthPlain"),("OAuth 2.0","auth/oauth2.go AuthOAuthBearer, auth/auth.go OAuthPlainAuthenticator")],
 "bcrypt, net/http and encoding/json are given by assumed contracts (matches, basicAuth, answers, says); the PAM driver is not part of the default build and is not covered.")
prop("P01","A client acts only as an account it proved to be, or may impersonate",
 "A connection completes registration only as an account whose credentials it presented (PASS or SASL PLAIN: the authenticator accepted exactly the part of the user name before the first / or @ together with the password given; SASL OAUTHBEARER: the account the authenticator returned), or as an existing account impersonated over SASL PLAIN by an administrator who proved to be one. A failed, aborted or unknown SASL exchange proves nothing, a success is not undone or redirected by the USER name or a later failure, and the connection is then served by the goroutine of exactly that account. A disabled account is never welcomed and its clients' messages are ignored.",
 ["inputs","histories"],"all sequences of registration commands, all names and passwords, all outcomes of the authenticators and of the database",
 "registration is a dialogue of any length whose steps overwrite one another; a test follows a few scripts",
 ["downstream.go","server.go","user.go"],[("registration","downstream.go handleMessageUnregistered, register"),("hand-over","server.go Handle, getOrCreateUser"),("account goroutine","user.go user.run")],
 "Every write of the authenticated name and of the registered flag anywhere in the program is an obligation against ghost predicates established only by the authenticators' and the database's contracts; the hand-over is an obligation on the channel send; authenticators are P02's business. That a goroutine's entry in the server's table carries its own name is proved where it is added and assumed where it is read (getUser).")

prop("P08","A client receives only messages and tags it negotiated",
 "Whatever is handed to a client's connection respects the capabilities that client has enabled: no TAGMSG without message-tags, no BATCH line and no batch tag without batch, only the tags it asked for, no SETNAME, CHGHOST, AWAY, ACCOUNT, MARKREAD or READ without their capability, a one-parameter JOIN without extended-join, and a source on every numeric. Nothing else is withheld or altered: a message that is not gated is delivered once, with its command, source, parameters and permitted tags unchanged, and sending it to one client never changes the message for another.",
 ["inputs"],"all messages, all tag sets, all sets of enabled capabilities",
 "the combinations of 12 capabilities, tags and commands are too many to sample, and a message shared between clients is corrupted only for the clients served after",
 ["downstream.go"],[("fan-out","downstream.go downstreamConn.SendMessage"),("batches","downstream.go SendBatch")],
 "Every call that reaches a client's connection is an obligation, wherever it is made; the frame of SendMessage proves that nothing reachable from the message is written. irc.Message.Copy and map deletion follow their documented contracts. SendBatch is the only sender of BATCH lines.")
prop("P09","Capability negotiation is atomic and honest",
 "Every CAP REQ is answered by one ACK or NAK. After a NAK no capability has changed; after an ACK every capability that was added had been asked for and is on offer, every one that was removed had been asked to be, and every requested change is in force. A request is refused only for a capability that is not on offer, informational, or cap-notify under version 302. A capability offered or withdrawn later is announced exactly to clients with cap-notify, once and only if something changed, and a withdrawn capability is no longer enabled. CAP LS and CAP REQ hold registration back until CAP END.",
 ["inputs","histories"],"all CAP commands in any order and any state, all sets of available and enabled capabilities",
 "request lists have any length and mix capabilities to add and to remove; atomicity shows only when one late item is refused",
 ["downstream.go","xirc/caps.go"],[("negotiation","downstream.go handleCap"),("offers","downstream.go setSupportedCap, unsetSupportedCap"),("registration","downstream.go runUntilRegistered"),("registry","xirc/caps.go CapRegistry")],
 "Proved for all request strings (strings.Fields and strings.ToLower are given by assumed contracts); a request naming one capability both ways may end either way. Which capabilities are on offer (upstream support) is not part of it.")
prop("P05","Connections to servers are encrypted and authenticated as configured",
 "A connection to a server is made over TLS unless the network's address names irc+insecure or a Unix socket. Without a pinned fingerprint the server's certificate is verified for the host the address names; with one, the connection is accepted only if the server presents a certificate whose SHA-256 or SHA-512 digest is the pinned one. A client certificate is offered only with SASL EXTERNAL. The update of a network's settings stores a fingerprint only in a form that comparison understands, refuses any other, and drops a pin only when told to.",
 ["inputs","faults"],"all addresses, all fingerprints, all certificate chains a server may present",
 "a server may present any chain; accepting one certificate too many is invisible to every test that talks to an honest server",
 ["upstream.go","service.go","database/database.go"],[("connection","upstream.go connectToUpstream"),("settings","service.go networkFlagSet.update"),("address","database/database.go Network.URL")],
 "The verification callback is run symbolically on an arbitrary chain where it is handed to crypto/tls, and its verdict is an obligation on the TLS configuration; SHA-2, hex, net/url and crypto/tls itself are given by assumed contracts; a pin read from the database is assumed to be in the stored form.")
prop("P04","Users stay within their network quota, and off local sockets",
 "A network is created enabled, or an existing disabled one is enabled, only while fewer networks of the user are enabled than the limit allows: the account's own limit, else the server-wide one, a negative limit meaning none. Only an administrator may ask to ignore the limit, and a network that is already enabled can be changed whatever the limit. A network is stored only if its address is a well-formed one of a known scheme, a Unix socket is an administrator's, and its name is neither empty, nor starts with a dash, nor is taken by another network of the user; this holds for creation and change alike, through the service, BOUNCER commands, and networks saved implicitly at login.",
 ["inputs","histories"],"all sets of networks, all limits, all commands and attributes",
 "the limit is counted over any number of networks and enforced at six call sites, with three ways around it",
 ["user.go","service.go","downstream.go"],[("limit","user.go canEnableNewNetwork, createNetwork, updateNetwork"),("records","user.go checkNetwork"),("callers","service.go handleServiceNetworkCreate, handleServiceNetworkUpdate; downstream.go loadNetwork, BOUNCER")],
 "Count is a ghost sum over the user's networks; every call of createNetwork and updateNetwork that does not enforce the limit is an obligation. Parsing of URLs and flags is given by assumed contracts; that updateUser re-submits unmodified records is assumed (covered by the bounded replay only).")
prop("P14","SASL responses survive their framing, whatever their length",
 "A SASL response sent to a server is cut into AUTHENTICATE messages of exactly 400 characters of its base64 form, the last one shorter, + standing for an empty one, so that joining them gives the response back; it is never left without a terminating chunk. Of a client's exchange, the mechanism is given the decoded concatenation of its chunks, once, when a chunk that is not 400 characters long arrives, and nothing before; chunks are not carried over into the next step. A client can make the bouncer buffer 10 KiB at most. An abort, an undecodable or overlong response, a refusal by the mechanism or a lack of the sasl capability ends the exchange, and no later message resumes it.",
 ["inputs","histories"],"all responses of all lengths, all sequences of chunks",
 "what goes wrong does so for responses whose base64 form is a multiple of 400 long, for exchanges of several steps or beyond a limit; tests use a short password",
 ["downstream.go","xirc/genmsg.go"],[("client exchanges","downstream.go handleAuthenticate"),("server exchanges","xirc/genmsg.go GenerateSASL")],
 "base64 and the mechanisms (go-sasl) are given by assumed contracts; a buffer is the string it holds.")
prop("P24","Saved SASL credentials change only on proof, to what was proven",
 "The SASL credentials the bouncer saves for a network on its own change only when the server confirms a client's SASL exchange or account registration, and then to exactly the user name and password which that client had presented for it; or when a client sends NickServ a command that carries credentials (REGISTER, IDENTIFY, SET PASSWORD), to exactly those. Any other message or reply, a failed or abandoned exchange, and a reply that answers nothing leave them as they are, and a network set up for another mechanism than PLAIN is never touched.",
 ["inputs","histories"],"all server messages, all texts sent to NickServ, all interleavings of exchanges and replies",
 "a wrong overwrite locks the user out of their account at the next reconnection; it takes a particular command, or a reply that arrives after the client has moved on",
 ["upstream.go","downstream.go","user.go"],[("confirmation","upstream.go handleMessage (RPL_SASLSUCCESS, REGISTER)"),("NickServ","downstream.go parseNickServCredentials, handleNickServPRIVMSG"),("saving","user.go autoSaveSASLPlain")],
 "handleMessage is verified whole: on every path, credentials are stored only for a 903 or REGISTER message that answers a pending command, with the credentials of the client that sent the command. That the pending command is the one the server answers (queue order) is assumed here.")
