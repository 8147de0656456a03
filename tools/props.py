PROPS = [
 dict(id='C01', title='No client session acts as a user without that user\'s credentials',
  statement='A client connection can only become registered, be attached to a user account, or act as that user after an authentication attempt naming that user has succeeded on that same connection. Acting as a different user than the one authenticated (impersonation) requires that the authenticated user is an administrator. Commands that need an account are refused before that point.',
  over=['inputs', 'histories', 'configurations'], qtext='every sequence of registration, SASL, BOUNCER and CAP messages on a client connection, and every configured authenticator',
  why='Tests register one well-behaved client with one valid password; the guarantee is about every message order and every mechanism, including failed and restarted authentication.',
  files=['downstream.go', 'server.go', 'user.go', 'auth/auth.go', 'auth/internal.go'],
  mech=[('authentication sets the session user name', 'downstream.go: authenticate, handleAuthenticateCommand'), ('registration needs a user name', 'downstream.go: register/welcome'), ('handover to the user loop', 'server.go: Handle')],
  observe=['replies on the client connection'],
  technique='SSA must-pass-through: guard search over call chains and value-origin slicing of the session identity',
  note='Every write of the session identity, every registration and every handover is traced back through all call chains; a path that does not pass a successful authentication of the same name is reported. Does not decide that password hashing or third-party authentication services are themselves correct.'),
 dict(id='C02', title='Administrator-only operations need administrator authority',
  statement='Creating, deleting, enabling, running commands as, or changing limits and privileges of other users, and server-wide operations such as broadcasts and debug switches, only happen on behalf of a session whose user is an administrator or of the local administration socket. A non-administrator can change only their own profile, and only the parts they are allowed to.',
  over=['inputs', 'configurations'], qtext='every service command line, by every kind of user, through every entry point',
  why='Tests do not exercise the service command table; the guarantee covers every command, argument combination and alias.',
  files=['service.go', 'server.go', 'user.go'],
  mech=[('admin flag in the command table and its single check', 'service.go: handleServiceCommand'), ('per-field admin checks', 'service.go: handleUserUpdate'), ('admin socket context', 'server.go: HandleAdmin')],
  technique='SSA must-pass-through: each privileged effect guarded by an admin fact on all call chains, including the command table contents',
  note='Privileged effects are enumerated from the database and server API (not from command names); each must be dominated, on every call chain from client input, by an administrator check on the acting session.'),
 dict(id='C03', title='Users and networks are isolated from each other',
  statement='What one user does never reads, changes or deletes another user\'s networks, channels, history or sessions. Traffic and state of one upstream network are only delivered to client sessions bound to that network, and commands of a session only reach the network it is bound to.',
  over=['inputs', 'histories'], qtext='every identifier a client can send and every set of users, networks and sessions',
  why='Tests use one user with one network.',
  files=['user.go', 'downstream.go', 'upstream.go', 'service.go', 'server.go'],
  mech=[('network lookup restricted to the acting user', 'user.go: getNetworkByID'), ('fan-out filter', 'user.go: forEachDownstream; downstream.go: forEachUpstream')],
  technique='backward slicing of database IDs to owned records; fan-out filter dominance; confinement of foreign user objects',
  note='IDs handed to the database must come from the acting user\'s own records; network fan-out must be filtered by the session\'s network. Does not decide isolation inside third-party message stores.'),
 dict(id='C05', title='One peer cannot take down the bouncer for everyone else',
  statement='A panic caused by a message from one client or one upstream server ends at most that connection or that user\'s session: every goroutine that reads, parses or handles peer messages or user events recovers from panics, and goroutines without such protection contain no explicit panic and never close a channel twice. The process and all other users keep running.',
  over=['inputs', 'schedules'], qtext='every byte sequence on every client and upstream connection, at every point of a session',
  why='A test process that crashes on one input says nothing about the others; containment must hold on every goroutine and call chain.',
  files=['server.go', 'user.go', 'conn.go', 'upstream.go', 'downstream.go'],
  mech=[('recovery for client connections', 'server.go: Handle'), ('recovery for the user loop', 'server.go: addUserLocked'), ('recovery for upstream connections', 'user.go: network.runConn')],
  observe=['the process stays up; other sessions still answer'],
  technique='goroutine-structure analysis: upward call-graph walk from message handling to go statements, requiring a deferred function that calls recover directly; closed-once typestate of channels',
  note='Decides containment, not absence of panics (C06 treats index errors). Panics inside dependencies count as contained when the calling goroutine recovers.'),
 dict(id='C06', title='Malformed messages never cause an out-of-range access',
  statement='Whatever number and content of parameters a client, upstream server or ident peer sends, message handling never indexes or slices parameters (or words split out of them) out of range, and never treats an empty source or nickname as a valid one where a non-empty one is required: such messages are rejected, defaulted or ignored.',
  over=['inputs'], qtext='every IRC message, service command line, ident query and log line',
  why='Tests send well-formed messages only.',
  files=['downstream.go', 'upstream.go', 'service.go', 'irc.go', 'xirc/xirc.go', 'xirc/whox.go', 'identd/identd.go', 'msgstore/znclog/reader.go'],
  mech=[('parameter count checks', 'irc.go: parseMessageParams and the len() checks of each handler'), ('default source', 'upstream.go: handleMessage')],
  technique='interprocedural range analysis with a difference-bound prover over branch facts on all paths and call chains',
  note='Fixed positions (constants, from the end, from string searches) are proved in range; computed loop positions are proved where possible and otherwise only reported when the code itself states a bound that is one too large. Helpers that work on already accepted messages, and internal queues, are outside.'),
 dict(id='C04', title='Each database operation touches only the rows its parameters name',
  statement='Whatever strings and identifiers are passed in, a database method reads, changes or deletes only rows belonging to the user, network, target, client or record identified by its parameters, on both the SQLite and the PostgreSQL backend. Values supplied by users never become part of the SQL text, every statement is well formed for the schema, and every placeholder is bound.',
  over=['inputs', 'configurations'], qtext='every statement alternative a database method can build, for every argument value, on both backends',
  why='The PostgreSQL backend is not exercised by the tests at all here, and a missing join condition or swapped parameter only shows with several users and networks.',
  files=['database/sqlite.go', 'database/postgres.go', 'database/sqlite_schema.sql', 'database/postgres_schema.sql'],
  mech=[('statements and their bound arguments', 'database/sqlite.go, database/postgres.go: all methods of the Database interface')],
  technique='constant propagation of SQL texts over all branches, an SQL parser and a foreign-key connectivity check of each statement against the schema; taint check of SQL text',
  note='Every alternative text each method can build is parsed; all row sources must be tied to the method\'s parameters through equality conditions and foreign keys. Does not execute SQL; engine behaviour is assumed.'),
 dict(id='C13', title='What is stored in the database is what is read back',
  statement='Every field of a user, network, channel, delivery or read receipt, web push configuration or subscription that is read back from the database comes from the column it was stored in, is written both on creation and on update (where it can change), survives being empty, and is decoded by the inverse of how it was encoded. History queries honour every requested bound (after or before a time or message, sender, text, limit, direction), and new rows report their identifier. Both backends agree.',
  over=['inputs', 'histories', 'configurations'], qtext='every record value and every combination of query options, on both backends',
  why='Round-trip tests use a few field values on one backend; a swapped column or forgotten UPDATE column shows only for records that use it.',
  files=['database/sqlite.go', 'database/postgres.go', 'database/database.go'],
  mech=[('stores', 'database: Store* methods'), ('loads', 'database: Get*, List* methods'), ('history filters', 'database: ListMessages, ListMessageLastPerTarget')],
  technique='relational dataflow: column-to-field maps of writes and reads extracted from SQL texts, bound arguments and Scan destinations, compared per column and backend',
  note='Correspondence of columns, fields, encodings and filters is decided on the program text. Whether an SQL engine preserves a value (precision of times, text encodings) is assumed.'),
 dict(id='C14', title='Database operations fail as a whole and report the failure',
  statement='A database method that fails part-way leaves no partial change: all its statements run in one transaction, which is committed before success is reported and rolled back otherwise. Any error of a statement, row iteration, scan or commit is returned to the caller; result sets are closed. Deleting a user or network removes everything that refers to it, children first.',
  over=['crash_points', 'inputs'], qtext='a failure or crash at every statement of every database method, on both backends',
  why='Tests never inject a failing statement and cannot enumerate crash points.',
  files=['database/sqlite.go', 'database/postgres.go'],
  mech=[('transactions', 'database: DeleteUser, DeleteNetwork, StoreClientDeliveryReceipts, StoreMessages, upgrade')],
  technique='typestate of transactions and result sets plus an error-flow analysis (every error is checked or returned on every path)',
  note='Per-path analysis of each method and its helpers; the foreign-key graph of the schema decides which deletes are needed. Atomicity of a committed transaction is the engine\'s.'),
 dict(id='C34', title='An upgraded database has the schema of a fresh one',
  statement='Starting on a database of any older schema version yields the same tables, columns, nullability and deletion rules as a newly created database; each migration runs exactly once, in order, from the stored version on, together with the version change, and the stored version is the number of migrations.',
  over=['histories', 'crash_points', 'configurations'], qtext='every stored schema version of both backends',
  why='The tests only migrate one historical SQLite dump.',
  files=['database/sqlite.go', 'database/postgres.go', 'database/sqlite_schema.sql', 'database/postgres_schema.sql'],
  mech=[('migration lists', 'database: sqliteMigrations, postgresMigrations, upgrade')],
  technique='abstract interpretation of the migration list over schema states, compared with the fresh schema; loop-bounds check of the upgrade',
  note='Only tables and columns that the list creates or alters can be compared; tables older than the list are compared for what the list adds. A column SQLite could only add as nullable may be stricter in the fresh schema.'),
 dict(id='C08', title='User state is only touched by that user\'s own goroutine',
  statement='A user\'s list of networks and client sessions, a network\'s upstream connection, channels, delivery receipts, push targets and last error, and the in-memory user and network records are only changed by the one goroutine that processes that user\'s events. Connection readers, timers, background tasks (web push) and server-wide tasks (shutdown, disabling inactive users) do not access that state: they only send events. Once a connection has been handed over to its user, the goroutine reading it no longer touches its protocol state.',
  over=['schedules', 'histories'], qtext='every interleaving of client and upstream connections, timers and server tasks',
  why='A race shows only under a particular interleaving; the tests run one connection at a time and without the race detector.',
  files=['user.go', 'upstream.go', 'downstream.go', 'server.go'],
  mech=[('the event loop', 'user.go: user.run'), ('hand-over', 'server.go: Handle; user.go: network.runConn'), ('timers send events', 'upstream.go: updateAutoDetach, startRegainNickTimer')],
  technique='goroutine confinement (ownership) analysis: reachability of field accesses from every goroutine root, with branch facts for registration',
  note='Ownership is by type and field. One known finding: upstream messages handled before registration. Reads of the records by connecting goroutines are not decided.'),
 dict(id='C10', title='Locks are kept and released; nothing waits forever',
  statement='The server-wide tables (users, listeners, the shutdown flag) and the ident table are only accessed while holding their lock, exclusively for changes. Every lock taken is released on every path and never taken again by its holder, and while one is held nothing waits for a channel, a goroutine or a peer. A user\'s event loop never waits on a channel without something that ends the wait (a cancelled context, a closed connection): not on its own or another user\'s event queue, and not on a requester that went away. Every write to a peer has a deadline, so that a stalled client or server cannot block a user or a shutdown.',
  over=['schedules', 'fault_sequences', 'histories'], qtext='every interleaving of users, connections and administrative commands, including peers that stop reading',
  why='Deadlocks need two sides to wait at the same time (a full queue, a vanished requester); the tests never fill a queue.',
  files=['server.go', 'user.go', 'downstream.go', 'upstream.go', 'conn.go', 'service.go', 'identd/identd.go'],
  mech=[('server lock', 'server.go: Server.lock'), ('ident lock', 'identd: Identd.lock'), ('event loop', 'user.go: user.run'), ('writer deadline', 'conn.go: newConn, Shutdown')],
  technique='lockset analysis (held locks per program point over the call graph), lock typestate, and a blocking-effect analysis of everything the event loop can call',
  note='Waits inside the database and HTTP clients are bounded by their contexts, whose deadlines are checked where the loop makes them; libraries are trusted to honour them.'),
 dict(id='C09', title='Connections that end leave nothing behind',
  statement='Every client session handed to a user, and every upstream connection that completed registration, is followed by an announcement of its end however its handler ends (an error, a panic), and is closed. When a session ends it leaves the user\'s list of sessions, its delivery receipts are stored, its queued upstream commands are cancelled and the away status and monitored nicknames are refreshed. When an upstream connection ends its network has no connection any more, the commands waiting for its answers are aborted, its timers are stopped and clients are told. Stopping a user closes its sessions, stops its networks, stores delivery receipts, ends its loop and signals that end. A network that is removed is stopped, its sessions closed and it leaves the list; one that is added is started. Every kind of event sent to a user is handled. Ident entries go away with their connection.',
  over=['histories', 'fault_sequences', 'schedules'], qtext='every way a connection, network or user can end',
  why='Tests end connections in one way, at a quiet moment; leaks show on early errors, panics and rare combinations.',
  files=['server.go', 'user.go', 'upstream.go'],
  mech=[('announcements', 'server.go: Handle; user.go: runConn'), ('end of a session or connection', 'user.go: user.run, handleUpstreamDisconnected'), ('networks', 'user.go: removeNetwork, addNetwork, network.stop')],
  technique='interprocedural must-effect (obligation) analysis over control-flow paths, including deferred calls, iterators and loops',
  note='The called refresh functions themselves (updateAway, updateMonitor, updateSupportedCaps) are not judged here.'),
 dict(id='C12', title='What is acknowledged is stored; what fails to store changes nothing',
  statement='When the database fails to store or delete something on behalf of a command, the requester is told so (or, where nobody asked, the failure is logged): a failure is never acknowledged as a success. The record of a user or network in use only changes after the changed record was stored, and a stored change takes effect. Changes of a channel (created, detached, attached, updated) are stored before the request is done; a channel leaves its network only after it was deleted. Networks and users are added to or removed from the running server only after the database was. A network is only stopped or disconnected for a change that was stored. Updating a network keeps its channels and delivery receipts.',
  over=['fault_sequences', 'histories', 'inputs'], qtext='every command that changes stored state, with any database operation failing',
  why='The tests never make the database fail and do not restart the server after a change.',
  files=['user.go', 'service.go', 'downstream.go', 'upstream.go', 'server.go'],
  mech=[('service commands', 'service.go: handleServiceSASLSetPlain, handleServiceChannelUpdate, handleServiceChannelCreate'), ('users and networks', 'user.go: updateUser, createNetwork, updateNetwork, deleteNetwork, autoSaveSASLPlain'), ('channels', 'user.go: detach, attach, deleteChannel')],
  technique='error-flow analysis of every database change up to the reply, and path searches ordering in-memory changes after the success of the matching operation',
  note='Joining and leaving a channel go on upstream even if they cannot be remembered; that failure is logged. Which record an operation concerns is decided by type and local copy.'),
 dict(id='C11', title='Queries queued for an upstream server are answered to the client that asked',
  statement='Client commands that need an upstream reply (LIST, WHO, WHOIS, AUTHENTICATE, REGISTER, VERIFY) wait in one queue per command. The oldest is the one that was sent, under the id of its client; a command that finds its queue empty is sent at once, and whenever the oldest is dropped (its final reply or an error naming it arrived, or no reply came for too long) the next one is sent, so that a queue never stalls. A command that was already sent is never taken out of its queue by anything else. Replies reach only the client that asked. When the upstream connection ends, every waiting client gets the reply that ends its command. These commands are never sent past the queue, and an authentication exchange that is over is reset for both sides.',
  over=['histories', 'fault_sequences', 'inputs'], qtext='every sequence of queries, replies, errors, disconnects and missing replies',
  why='Tests issue at most one query at a time and always answer it.',
  files=['upstream.go', 'downstream.go'],
  mech=[('the queue', 'upstream.go: enqueueCommand, dequeueCommand, sendNextPendingCommand, cancelPendingCommandsByDownstreamID, abortPendingCommands'), ('replies', 'upstream.go: handleMessage')],
  technique='typestate of the queue: recognition of its operations and path searches under the assumption of each command and reply',
  note='Which replies are final is a table (LISTEND, ENDOFWHO, ENDOFWHOIS, the SASL numerics, REGISTER, VERIFY and errors naming a command); that the server sends one for each command is assumed.'),
 dict(id='C15', title='Conversations are recorded before delivery, and only where they may be',
  statement='Every PRIVMSG, NOTICE, JOIN, PART, KICK and TOPIC of an upstream server about a channel or a direct conversation is appended to the message history (when there is one) of its buffer, the sender\'s for a direct message, before it is passed to clients, and is delivered under the id it was stored with. QUIT and NICK are stored in every channel the user is seen in, MODE in its channel. The history of a network that is renamed moves with it. What a client sends is recorded once: by soju if the server does not echo messages, by the echo otherwise. Conversations with NickServ and messages to server masks are never stored, and only a password given to NickServ as such, or one that the server accepted, is remembered as the network\'s credentials. Before the first message of a new buffer is stored, the position of offline clients is recorded. Messages of a detached channel are not forwarded to clients, except as the relay the channel\'s settings ask for; detaching remembers where the history stands and attaching replays from there. A client does not get its own message back unless it asked for echoes, is only asked to acknowledge a message after it was sent, and its delivery receipt only moves by its acknowledgement or after its backlog was sent.',
  over=['inputs', 'histories'], qtext='every message of a client or server, in every state of detachment, echo capability, and set of known and offline clients',
  why='Tests sample one channel message; losses show for particular commands, detached channels, offline clients and echo combinations.',
  files=['upstream.go', 'downstream.go', 'user.go'],
  mech=[('recording', 'upstream.go: appendLog, produce'), ('receipts', 'downstream.go: sendMessageWithID, ackMsgID, welcome'), ('detachment', 'user.go: detach, attach; downstream.go: sendTargetBacklog'), ('credentials', 'downstream.go: parseNickServCredentials; user.go: autoSaveSASLPlain')],
  technique='must-effect path searches under the assumption of each command, guard analysis of every append and delivery, and origin slicing of message ids',
  note='The content and order of the history inside a store is not decided. QUIT, NICK, MODE and TAGMSG are only required to be stored on some path.'),
 dict(id='C24', title='Client addresses and listeners are only trusted and exposed as configured',
  statement='The address a client is known by is the one its connection comes from; an address given in a Forwarded or X-Forwarded-For header or a PROXY protocol header is only believed when the peer that sent it is in the configured set of accepted proxies, which is empty unless configured. Browsers may only open WebSocket connections from the server\'s own or the configured origins. The server only listens in plain text for IRC, WebSocket and HTTP clients on localhost or on an address marked insecure; metrics and profiles are only served on localhost, whatever the listener; the administration interface is only served on a Unix socket configured for it, after making it accessible to its owner only.',
  over=['configurations', 'inputs'], qtext='every configured listener and every request, with any headers and from any address',
  why='The listener set-up is in main and is not tested; header trust needs adversarial headers.',
  files=['server.go', 'cmd/soju/main.go', 'config/config.go'],
  mech=[('forwarded addresses', 'server.go: ServeHTTP'), ('PROXY policy', 'cmd/soju/main.go: proxyProtoListener'), ('listeners', 'cmd/soju/main.go: main'), ('accepted proxies', 'config/config.go: IPSet, Load')],
  technique='backward slicing of the client address to its sources with guard analysis of each, and guard analysis of every listen and serve call under the listener\'s scheme and host',
  note='Classification of handlers is by the value given to net/http. That the Unix socket is briefly accessible before its mode is set is documented in the code and not decided.'),
 dict(id='C21', title='Upstream servers are reached over TLS and verified, unless configured otherwise',
  statement='A network whose address has no scheme or ircs:// is only ever connected to over TLS: the plain connection is used only if the address says irc+insecure or names a Unix socket. The server\'s certificate is verified for the host of the address, unless the network has a pinned certificate fingerprint; then the connection is only accepted if the first certificate the server sends (the one it proves to own) has exactly that SHA-256 or SHA-512 fingerprint. The network\'s own client certificate is only presented if the network uses SASL EXTERNAL. If per-user source addresses are configured, TCP connections to servers are made from the user\'s address in that range, or fail.',
  over=['configurations', 'inputs'], qtext='every network configuration and every list of certificates a server presents',
  why='The tests never use TLS.',
  files=['upstream.go', 'database/database.go', 'user.go'],
  mech=[('dialling and pinning', 'upstream.go: connectToUpstream, dialTCP'), ('default scheme', 'database/database.go: Network.URL'), ('source address', 'user.go: localTCPAddr')],
  technique='enumeration of TLS configurations, guard analysis of disabled verification, acceptance analysis (every nil return) of the replacement verifier, and slicing of the connection in use back to the TLS client per scheme',
  note='crypto/tls itself is trusted.'),
 dict(id='C17', title='Files kept for users stay inside the configured directories',
  statement='Whatever the names of users, networks, channels, nicknames and uploaded files, every file or directory that the message store or the upload store opens, creates, lists, renames or removes lies below the directory configured for it. What is created is not accessible to other system users, nothing that was stored earlier is overwritten or truncated (logs are only appended to, uploads always get a new file, a network\'s logs are never moved over existing ones), and a message is only written to the log of its own network, conversation and day.',
  over=['inputs'], qtext='every string a client, server or authentication backend can supply as a name',
  why='Path traversal needs hostile names ("..", "a/../../b") in just the argument that is not escaped; the tests use ordinary ones.',
  files=['msgstore/fs.go', 'fileupload/fs.go', 'fileupload/fileupload.go'],
  mech=[('escaping', 'msgstore/fs.go: EscapeFilename'), ('log paths', 'msgstore/fs.go: NewFSStore, logPath, ListTargets, RenameNetwork, Append'), ('upload paths', 'fileupload/fs.go: load, store; fileupload/fileupload.go: fetch, store')],
  technique='abstract interpretation of strings over a domain of path shapes (configured, inside, relative, single component, arbitrary), backwards through helpers, callers and fields, for every path given to the os package',
  note='Symbolic links inside the configured directories are out of scope. The separator is that of Unix.'),
 dict(id='C18', title='Uploads are authenticated, bounded, complete and never run as scripts',
  statement='A file is only stored after the credentials in the request were accepted, and for the user they belong to. Requests made by Web pages are only served if the page\'s origin is the server itself or configured. The body is cut off at 50 MiB while it is received, whatever length was announced. Success is only reported once the whole file was written (or created by the remote backend); a failed upload leaves no file behind. Every file is served under a policy that forbids scripts and says how to treat it: browsers are told to show it only if the very type it is served with is in the fixed list of harmless types, which has no type that can contain scripts, and to download it otherwise. Directories are not served.',
  over=['inputs', 'fault_sequences'], qtext='every HTTP request, with any headers and body, and every failure while it is handled',
  why='The upload service has next to no tests; its guarantees concern hostile headers, aborted transfers and full disks.',
  files=['fileupload/fileupload.go', 'fileupload/fs.go', 'fileupload/http.go'],
  mech=[('requests', 'fileupload/fileupload.go: ServeHTTP, setCORS, store'), ('responses', 'fileupload/fileupload.go: fetch'), ('backends', 'fileupload/fs.go: store, load; fileupload/http.go: store')],
  technique='guard analysis (path search for unguarded uses) of every backend call and response, leaf-wise for the user name and disposition, and must-effect analysis of error paths',
  note='That browsers honour the headers is assumed.'),
 dict(id='C20', title='Capabilities: nothing is sent to a side that has not negotiated it',
  statement='A client that has not enabled the matching capability never gets TAGMSG, SETNAME, CHGHOST, AWAY, ACCOUNT, MARKREAD, READ, the extra parameters of JOIN, a BATCH, BOUNCER notification or CAP NEW/DEL, nor a message tag other than time, account and batch, each of which also needs its own capability; trimming a message for one client does not change what another gets. A capability request of a client is applied and acknowledged as a whole or not at all, and only enables what is offered. Capabilities that depend on the upstream servers are only offered while every one of them has acknowledged it, and are offered anew whenever a registered server\'s capabilities change. Servers only get tags after acknowledging message-tags, a capability of a server is only relied on after its ACK, only what a server offers is requested, and a list of capabilities in several lines is read to its end before registration goes on.',
  over=['inputs', 'histories', 'configurations'], qtext='every message, every set of capabilities a client and the servers negotiate, and every change of it',
  why='The tests negotiate no capabilities; a missing gate only shows for one command together with one capability being off.',
  files=['downstream.go', 'upstream.go', 'xirc/caps.go'],
  mech=[('the filter', 'downstream.go: SendMessage, SendBatch; upstream.go: SendMessage'), ('client requests', 'downstream.go: handleCap, updateSupportedCaps, setSupportedCap'), ('server capabilities', 'upstream.go: handleMessage (CAP), updateCaps, handleCapAck')],
  technique='path searches to every place that hands a message to a connection, under the assumption of each command or tag and of its capability being off; guard and must-effect analysis of capability changes',
  note='Before registration a client that speaks CAP 302 is shown everything that may become available, as the code documents.'),
 dict(id='C31', title='Disabled accounts are offline; changed passwords end sessions',
  statement='A client of a disabled account is refused after authenticating, unless the configuration says that authenticating enables the account; nothing else done on behalf of a client re-enables one. Upstream servers are only connected to for an enabled account and an enabled network. Disabling an account closes all of its client sessions, whatever else fails, and enabling or disabling it restarts every one of its networks. A password set (or removed) by an administrator closes all sessions of that user. Only if configured, accounts are disabled in the background, and then only those without any session whose last activity is older than the configured delay. The start and the end of each session is recorded as activity, except when an administrator acts as the user.',
  over=['histories', 'fault_sequences', 'configurations'], qtext='every sequence of account changes, sessions and database failures',
  why='No test disables an account or changes a password.',
  files=['user.go', 'server.go', 'service.go'],
  mech=[('account changes', 'user.go: updateUser, run (eventUserUpdate)'), ('sessions', 'user.go: run (eventDownstreamConnected, eventDownstreamDisconnected)'), ('connecting', 'user.go: network.run'), ('inactivity', 'server.go: disableInactiveUsers')],
  technique='guard analysis of every place that accepts a session, dials a server or enables an account; must-effect path searches after each change of an account',
  note='Changing one\'s own password keeps the sessions, by design.'),
 dict(id='C23', title='Stored networks are valid, uniquely named and within the limit',
  statement='Whoever creates or changes a network, and by whatever command, it is only stored if its address has a known scheme, no credentials, query or fragment, a host and no path (ircs, irc+insecure) or a path and no host (unix, irc+unix, which only administrators may use), and if its name is not empty, does not begin with a dash and is not that of another network of the user. An enabled network is only added, or a disabled one enabled, while the number of the user\'s enabled networks is below the user\'s own limit, or else the configured one, if there is a limit; only administrators can override it.',
  over=['inputs', 'histories', 'configurations'], qtext='every command that creates or changes a network, with any address, name and number of networks',
  why='Tests create one valid network; each clause fails only for one kind of address, name or command.',
  files=['user.go', 'service.go', 'downstream.go'],
  mech=[('validation', 'user.go: checkNetwork'), ('limit', 'user.go: canEnableNewNetwork, createNetwork, updateNetwork'), ('commands', 'service.go: handleServiceNetworkCreate, handleServiceNetworkUpdate; downstream.go: handleMessageRegistered (BOUNCER), loadNetwork')],
  technique='guard analysis of every place that stores a network, for each required fact and under the assumption of each scheme, through the checking functions and up through the callers; comparison of the checked with the stored record',
  note='Networks already in the database are not checked again when they are loaded.'),
    dict(id="C30", title="Read markers only advance; history replies match the request",
         statement="A read marker of a client is only replaced by a later one, is never in the future, and is kept under the network and the folded target; once it is stored, every client of the network is told it, and clients are never told another. A CHATHISTORY or SEARCH request asks the store for at most the advertised number of messages of exactly its window: BEFORE for what precedes its bound, LATEST for the latest after it, AFTER for the first after it, BETWEEN for what lies between its bounds in either order, SEARCH for its own criteria; events only for clients that asked for event playback. The stores return only messages strictly between the bounds that the search selects, at most as many as asked for, oldest first. A request whose lookup fails is answered with an error, and detached channels are not listed as targets.",
         over=["inputs", "histories", "fault_sequences"], qtext="every history, search and read-marker request, with any bounds, limit and order of markers, and every failure of the store",
         why="Tests exercise a few windows of one store; a wrong bound, order or comparison shows only for particular timestamps, stores or failures.",
         files=["downstream.go", "msgstore/db.go", "msgstore/fs.go", "database/sqlite.go", "database/postgres.go"],
         mech=[("markers", "downstream.go: handleMessageRegistered (READ, MARKREAD)"), ("requests", "downstream.go: handleMessageRegistered (CHATHISTORY, SEARCH)"), ("stores", "msgstore/db.go, msgstore/fs.go: LoadBeforeTime, LoadAfterTime, Search, ListTargets"), ("queries", "database/sqlite.go, database/postgres.go: ListMessages, ListMessageLastPerTarget")],
         technique="guard analysis of every store of a marker with comparisons of times as facts; per-subcommand reachability and value flow of the bounds from the request's parameters to the store and to the query; must-effects for telling clients",
         note="The in-memory store offers no history requests. What the databases return for a query is not modelled beyond its conditions, order and limit; FS targets are dated by file times."),
    dict(id="C25", title="The record of channels and users follows what the server announces",
         statement="When an upstream server announces a change, the bouncer's record of that network changes accordingly before the message counts as handled, whoever is meant: joining records a channel (or the member who joined); parting or being kicked forgets the channel and its pending automatic detachment (or removes exactly the member who left or was kicked from that channel); QUIT removes the user from every channel; NICK moves the membership with its status to the new nickname in every channel; TOPIC, 332 and 331 set or clear the topic; the names reply gives each listed member its own status; MODE and mode replies apply every mode according to its kind, taking or not taking its argument. Our own nickname, real name, user name and host change only with messages about us, and every client of the network is then told; changes of others (QUIT, NICK, SETNAME, CHGHOST, ACCOUNT, AWAY, channel MODE) are passed on to the network's clients; the cached record of a user, from which WHO is answered, takes over the new nickname, user name, host, account, real name and away flag and is dropped on QUIT. A withdrawn ISUPPORT token is forgotten and its default restored. When a client attaches or the names are complete, it is shown every joined, attached channel with its topic and all members.",
         over=["inputs", "histories"], qtext="every sequence of messages of an upstream server, from and about any user, ourselves included",
         why="Tests replay a handful of server messages; whether each handler updates every part of the record for us and for others, in every channel, shows only for particular senders and histories.",
         files=["upstream.go", "irc.go", "downstream.go", "user.go"],
         mech=[("handlers", "upstream.go: upstreamConn.handleMessage"), ("modes", "irc.go: applyChannelModes"), ("user cache", "upstream.go: cacheUserInfo, upstreamUser.updateFrom"), ("shown", "downstream.go: forwardChannel, sendTopic, sendNames")],
         technique="must-effect analysis of the message handler per command, assuming whose nickname is meant, with names, channels and members traced to the message's parameters; per-kind analysis of one iteration of the mode-string loop",
         note="What the record says between a server's messages is not compared with the server; the arithmetic of membership lists (xirc.MembershipSet) and of name splitting is not modelled."),
    dict(id="C32", title="Web Push reaches only vetted endpoints, and every notification owed is pushed",
        statement="The server sends Web Push requests to an endpoint given by a client only if it is an HTTPS URL none of whose resolved addresses is loopback, unspecified, private, link-local or multicast; a subscription is stored only after a test message was accepted by its endpoint with its keys, and only while the number of subscriptions of the network is bounded. Messages are signed with the server's one key pair, generated only when none is stored and used only once stored, and only for subscriptions made for that key pair. A push counts as delivered only on a 2xx answer, and as expired only on 404 or 410. A message to be pushed goes to every subscription of the network, each with its own endpoint and keys, whatever happens to the others; a subscription is deleted only when it expired (and then always), when pushing fails and it was not refreshed for at least a day, or when its client asks. Clients are told REGISTER or UNREGISTER only after it was done. Pushed are exactly: PRIVMSG and NOTICE of others that are direct messages or highlights in a channel that is not detached with relaying off; invitations of the user (unless the channel is joined automatically); and read markers of conversations with a pending notification, which stops being pending only when it was read or the channel is left.",
        over=["inputs", "histories"], qtext="every registration, endpoint, answer of a push service, message of an upstream server and stored subscription",
        why="Tests have no push service: endpoint vetting, failure handling and the choice of what to push are never run.",
        files=["downstream.go", "server.go", "user.go", "upstream.go"],
        mech=[("registration", "downstream.go: WEBPUSH, sanityCheckWebPushEndpoint"), ("sending", "server.go: sendWebPush, loadWebPushConfig"), ("broadcast", "user.go: broadcastWebPush"), ("triggers", "upstream.go: PRIVMSG/NOTICE, INVITE; downstream.go: MARKREAD")],
        technique="guard analysis (facts on every path, through helpers and their results) of each push, store and deletion, with endpoints and keys matched by access path; must-effect analysis of the triggers and of the loop over subscriptions",
        note="Resolution at check time is assumed to hold at push time (no rebinding), and redirects of push services are not modelled; TAGMSG is not covered; what counts as a highlight is not checked."),
dict(id="C16", title="Passwords are stored hashed; secrets are not logged, shown or kept in history",
     statement="What is stored as a user's password is always a hash made at no less than bcrypt's default cost. A secret the bouncer holds (a password hash or a password given by a client or to a service command, a network's server password, its SASL PLAIN password or its certificate's private key, the Web Push private key and subscription secret, an OAuth token) is never part of a line of the log, of the text of an error, of a message or tag sent to a client, or of what a service command prints. It is sent to a server only to authenticate there (PASS, AUTHENTICATE), and then only the credentials of the very network of the connection. Every line sent or received, which may contain passwords, is logged only for debugging, and the arguments of service commands are not logged as such. Messages from and to NickServ, however the name is capitalised, are never written to the history, and clients are told why authentication failed only in words made for the user.",
     over=["inputs", "histories", "configurations"], qtext="every command, message, network and user, and every failure while handling them",
     why="Tests do not read the log, and a leak shows only on the one error path, command or message that includes the secret.",
     files=["database/database.go", "downstream.go", "upstream.go", "service.go", "server.go", "user.go", "conn.go"],
     mech=[("hashing", "database/database.go: SetPassword; service.go: handleUserCreate, handleUserUpdate"), ("clients' passwords", "downstream.go: handleAuthenticate, register"), ("servers", "upstream.go: register, CAP/AUTHENTICATE"), ("history", "upstream.go: appendLog"), ("service", "service.go")],
     technique="backward taint analysis (through variables, fields, parameters, results and formatting) from every logging call, error constructor, message literal, tag and service output to the places that hold secrets; guard analysis of what is appended to the history",
     note="Messages that could not be handled are quoted in error reports and are not covered, nor are the texts of errors of libraries, the debug log, and connect commands."),
dict(id="C28", title="Names that differ only in letter case are the same name",
     statement="The names of channels and users of a network are compared as folded by the case mapping of that network, and everything the bouncer remembers per channel or user of a network (joined and saved channels, members, monitored nicknames, cached users, delivery receipts, pushed and pending notifications, requests in flight) is kept, looked up and deleted under the folded name, so that a name in another case never gives a second entry nor misses the first. The mappings ascii, rfc1459 and rfc1459-strict fold exactly the letters they define, the others to themselves, and an unknown or absent mapping is rfc1459. When a server announces a mapping, every table of the network, of its connection and of its clients' sessions takes it over without losing entries, and a session that registers later uses it too.",
     over=["inputs", "histories"], qtext="every name, capitalisation, mapping and moment at which the mapping changes",
     why="Tests use names in one case only; a comparison or table that forgets to fold works until a server or client writes a name differently.",
     files=["xirc/casemapping.go", "upstream.go", "downstream.go", "user.go"],
     mech=[("folding", "xirc/casemapping.go: casemapASCII, casemapRFC1459, ParseCaseMapping"), ("tables", "xirc/casemapping.go: CaseMappingMap"), ("comparisons", "upstream.go, downstream.go, user.go: isOurNick, isHighlight, casemap"), ("change", "user.go: network.updateCasemapping; downstream.go: updateCasemapping")],
     technique="syntactic and dataflow rules over the type-checked program: classification of every comparison and map key by what flows into it (a name or a folded name); must-effect analysis of the table operations and of the handover of a mapping; constant evaluation of the folding ranges",
     note="Which strings are names is decided from their origin (message parameters, prefixes, record fields) and type; the file store's use of names as paths is not covered."),
]
NA = [
    dict(id="C40", title="Every missed message is replayed exactly once", over=["schedules", "histories", "crash_points"],
         statement="A client that reconnects gets each message stored while it was away exactly once, whatever was delivered before, however often it reconnects and wherever the bouncer was stopped.",
         qtext="every history of connections, messages, acknowledgements and crashes", why="It relates the whole history of one client to the content of the store.",
         files=["downstream.go", "user.go", "msgstore/memory.go"], mech=[("receipts", "user.go: deliveredStore"), ("replay", "downstream.go: sendTargetBacklog")],
         reason="The number of times a message is delivered depends on message identifiers, ring positions and acknowledgements over the whole history; the order of operations it rests on (store before delivery, acknowledge after) is claimed under C15, but equality of the delivered and the stored sequence is not decidable by dataflow over the source."),
    dict(id="C41", title="Log files give back the messages written to them", over=["inputs"],
         statement="A message appended to the file store and read back has the same sender, target, text and time (to the second).",
         qtext="every message", why="It is a round trip over all strings.",
         files=["msgstore/fs.go", "msgstore/znclog/reader.go", "msgstore/znclog/writer.go"], mech=[("format", "msgstore/znclog")],
         reason="Formatter and parser are string programs; that one inverts the other for all inputs (it does not for some control characters) needs testing or proof over strings, not dataflow."),
    dict(id="C42", title="Reconnection attempts back off within bounds", over=["fault_sequences", "schedules"],
         statement="Attempts to reach an unreachable upstream server are separated by delays that grow up to the configured maximum and restart after a success.",
         qtext="every sequence of connection failures", why="It is about durations over time.",
         files=["user.go", "rate.go"], mech=[("backoff", "user.go: network.run")],
         reason="The delays are runtime quantities (jitter, clock); a static rule could only restate the constants."),
    dict(id="C43", title="Upstream messages keep to the rate limit", over=["schedules"],
         statement="In any period the bouncer sends an upstream server at most the configured burst plus the configured rate times the period.",
         qtext="every schedule of senders", why="It is a bound over time.",
         files=["conn.go", "upstream.go"], mech=[("limiter", "conn.go: newConn")],
         reason="The bound is that of golang.org/x/time/rate over wall-clock time; which writes pass the limiter is structural, how many pass per second is not."),
    dict(id="C44", title="Every accepted message is eventually delivered", over=["schedules", "fault_sequences"],
         statement="A message accepted from a client or a server reaches its recipients after finitely many steps as long as the connections live.",
         qtext="every schedule", why="It is a liveness property of the scheduler, the queues and the peers.",
         files=["user.go", "conn.go"], mech=[("queues", "conn.go: SendMessage"), ("events", "user.go: run")],
         reason="Termination of every handler and fairness of channels cannot be bounded statically here; the absence of lock cycles and of waits under locks is claimed under C10."),
]
