import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Board records keep every attribute at its fixed place in the board file",
 "Reading a 256-byte board record yields, for every attribute (name, title, moderators, flags, limits, class links, counters, times, post types), exactly the value stored at the byte range, width, byte order and text encoding that the PTT board file format defines; C-string text ends at its first NUL. Writing a board record produces exactly 256 bytes with every one of those attributes at the same place and nothing else changed, and a time that was never set is stored as 0. The accessors of a board report the attribute they are named after.",
 ["inputs"],"every 256-byte record content and every in-memory board value",
 "Tests decode one 14-record fixture whose fields are mostly zero and compare a handful of values; a shifted, overlapping, truncated or forgotten field in the other bytes is invisible.",
 ["pttbbs/board.go","pttbbs/encoding.go","cstr.go","big5.go"],
 [("board record decoder","pttbbs/board.go UnmarshalBoardHeader"),("board record encoder","pttbbs/board.go BoardHeader.MarshalBinary"),("field offsets","pttbbs/board.go PosOf* constants")],
 ["ReadBoardRecords","AddBoardRecord"])
p("C02","Article records keep every attribute at its fixed place in the article index",
 "Reading a 128-byte article index record yields, for every attribute (file name, modification time, recommendation score, owner, date, title, money / anonymous uid / vote limits, marks), exactly the value stored at the byte range, width, byte order and text encoding that the PTT format defines; C-string text ends at its first NUL. Writing an article record produces exactly 128 bytes that store every one of those attributes, marks and money included, at the same place, so re-writing a record that was read changes only what the caller changed; a time that was never set is stored as 0. The accessors of an article report (and set) the attribute they are named after.",
 ["inputs","histories"],"every 128-byte record content, every in-memory article value, every read-modify-write sequence",
 "Tests compare a few decoded fields of fixture records and one encoded record with zero marks and money.",
 ["pttbbs/file.go","pttbbs/encoding.go","cstr.go","big5.go"],
 [("article record decoder","pttbbs/file.go NewFileHeaderWithByte"),("article record encoder","pttbbs/file.go FileHeader.MarshalToByte")],
 ["ReadBoardArticleRecordsFile","UpdateArticleRecordFileRecord"])
p("C03","User records keep every attribute at its fixed place in the password file",
 "Reading a 512-byte user record yields, for every attribute (identity, password hash, flags, level, counters, times, contact data, game scores and the rest), exactly the value stored at the byte range, width, byte order and text encoding that the PTT password file format defines. Writing a user record produces exactly 512 bytes with every attribute that reading yields at the same place and full width, and a time that was never set is stored as 0. The accessors of a user record report the attribute they are named after.",
 ["inputs"],"every 512-byte record content and every in-memory user value",
 "Tests compare one fixture file in which most of the 60 fields are zero in every record.",
 ["pttbbs/passwd.go","pttbbs/encoding.go","pttbbs/const.go","cstr.go","big5.go"],
 [("user record decoder","pttbbs/passwd.go UnmarshalUserec"),("user record encoder","pttbbs/passwd.go Userec.MarshalBinary")],
 ["ReadUserRecords"])
p("C04","Online-user records keep every attribute at its fixed place in shared memory",
 "Reading a 3484-byte online-user record yields, for every attribute including each element of the friend, reject and message arrays, exactly the value stored at the byte range, width and encoding of the PTT shared-memory layout, with no two attributes sharing bytes. Writing it produces exactly 3484 bytes with every attribute that reading yields at the same place; a time that was never set is stored as 0.",
 ["inputs"],"every 3484-byte record content and every in-memory online-user value",
 "The single fixture is almost entirely zero bytes, so overlapping or swapped fields decode equal.",
 ["pttbbs/userinfo.go","pttbbs/encoding.go","pttbbs/const.go"],
 [("decoder","pttbbs/userinfo.go UnmarshalUserInfo"),("encoder","pttbbs/userinfo.go UserInfoCache.MarshalBinary")],
 ["Cache.UserInfo"])
p("C05","Favorites files are read and written with the same tree structure",
 "A favorites file is read as a 2-byte version followed by one folder; a folder is a 4-byte count header (boards, lines, sub-folders), then as many items as the counts add up to, then the contents of its sub-folders in item order; each item is a type byte, an attribute byte and a fixed-size body (board 12, folder 50, line 1 bytes) with fixed field places. Reading continues each part exactly where the previous one ended, and writing emits the same parts in the same order, widths and places. The items exposed to callers report the type, title, board and children that were stored, nothing that an item of their type does not have, and are given as a board, folder or line only when they are one. The folders and the lines read are numbered by their position among the folders and lines of their folder.",
 ["inputs"],"every favorites file content and every in-memory favorites tree",
 "Tests parse and re-encode two fixture files with one nesting level.",
 ["pttbbs/fav.go","pttbbs/pttbbs.go"],
 [("parser","pttbbs/fav.go UnmarshalFavFile, UnmarshalFavFolder, UnmarshalFavItem, UnmarshalFav*Item"),("encoder","pttbbs/fav.go MarshalBinary methods"),("board name lookup","pttbbs/pttbbs.go appendBoardID")],
 ["ReadUserFavoriteRecords"])
p("C06","FormosaBBS index records are decoded from their fixed places",
 "Reading a 248-byte FormosaBBS article index record yields the file name, modification time, owner, title and post number stored at the byte ranges of that format, with text ending at its first NUL.",
 ["inputs"],"every 248-byte record content",
 "One fixture file, a few fields compared.",
 ["formosabbs/file.go"],[("decoder","formosabbs/file.go NewFomosaBBSFileHeaderWithByte")])
p("C07","Record files are read completely, in order, and reading always ends",
 "Reading a board, article, user, online-user or FormosaBBS record file returns exactly one record for every complete fixed-size record in the file, in file order, and nothing for a trailing partial record. A read failure other than the end of the file ends the reading and is reported to the caller. Reading a login log returns one entry for each line and likewise reports read failures.",
 ["inputs","fault_sequences"],"every file length and content, every sequence of short reads and read errors",
 "Tests read intact fixture files whose length is a multiple of the record size; short reads, directories and I/O errors never occur.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/passwd.go","pttbbs/userinfo.go","formosabbs/file.go","pttbbs/login_recent.go","pttbbs/bad_logins.go"],
 [("record loops","OpenBoardHeaderFile, OpenFileHeaderFile, OpenUserecFile, OpenUserInfoCache, OpenFormosaBBSFileHeaderFile"),("line loops","OpenLoginRecentFile, OpenBadLoginFile")])
p("C08","No stored data can crash the library",
 "Decoding any file, record, log line, favorites tree, article text or shared-memory content never panics, however short, long or malformed the bytes are: it yields a value or an error. The accessors of a decoded record never panic either. (Start positions given to the favorites decoder lie within its data; memory and stack are taken to suffice.)",
 ["inputs"],"every byte sequence that a file or record can contain, of every length",
 "Tests feed well-formed fixtures only.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/passwd.go","pttbbs/userinfo.go","pttbbs/fav.go","pttbbs/pttbbs.go","pttbbs/bad_logins.go","pttbbs/login_recent.go","pttbbs/cache.go","formosabbs/file.go","user_comment_record.go","bbs.go"],
 [("decoders and record accessors","exported Unmarshal*/New*WithByte/Open* functions and record methods")])
p("C09","No caller-supplied argument can crash the library",
 "Calling any exported operation of the library on an opened database, a driver, a decoded record, the shared-memory cache or the password hash with any argument values (empty or odd identifiers, any password, any index or uid, missing or wrongly typed creation arguments, a record from another driver; not a nil object or function) never panics: it succeeds or returns an error or an empty value.",
 ["inputs"],"every argument value of the exported operations, with any stored data behind them",
 "Tests pass well-formed, existing identifiers.",
 ["bbs.go","pttbbs/path.go","pttbbs/passwd.go","pttbbs/cache.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs_write_board_connector.go","crypt/bbscrypt.go","crypt/crypt.go"],
 [("argument checks","path getters, VerifyPassword, Fcrypt, Cache accessors, New*Record, Add*/Update* record operations")])
p("C10","Every stored object lives at its own well-known path",
 "The location computed for each kind of object (user records, board records, favorites, drafts, mail, login log, article index, article body, treasure index, treasure body, board name) is the PTT path for that kind, built from the opened home directory and exactly the identifiers given: per-user objects under home/<first character>/<user>/, per-board objects under boards/<first character>/<board>/, treasure under man/boards/<first character>/<board>/<path...>/.",
 ["inputs"],"every home directory and identifier value",
 "Path tests cover two or three sample identifiers for each function.",
 ["pttbbs/path.go","pttbbs/pttbbs.go"],[("path rules","pttbbs/path.go Get*Path"),("driver path getters","pttbbs/pttbbs.go Connector.Get*Path"),("home directory parsing","pttbbs/pttbbs.go Connector.Open")])
p("C11","Identifiers can never reach outside the object they name",
 "A user, board, draft, file name or treasure component that is empty, is '.' or '..', or contains a path separator is rejected with an error before any file is touched. Hence no operation called with such identifiers reads, creates, changes or deletes a file outside the directory of the user or board it names.",
 ["inputs"],"every identifier string, including ones from remote users",
 "Tests never pass hostile identifiers.",
 ["pttbbs/path.go","pttbbs/pttbbs.go"],[("identifier checks","pttbbs/path.go Get*Path")])
p("C12","Opened files and mappings are released on every path",
 "Every file the library or its tools open is closed, and every memory mapping or shared-memory attachment made is either handed to the caller inside an object whose Close releases it or released, on every path, including every error path.",
 ["fault_sequences","histories"],"every success and failure path of every operation that opens a file or mapping",
 "A leaked descriptor does not change any returned value, and error paths after a successful open are never taken in tests.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/passwd.go","pttbbs/userinfo.go","pttbbs/login_recent.go","pttbbs/bad_logins.go","pttbbs/pttbbs.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go","formosabbs/file.go","cache/mmap.go","cache/systemvshm.go","cmd/bbstool/main.go"],
 [("close calls","every os.Open/OpenFile/Create and mmap/shmat site")])
p("C13","Writers hold the file lock while they change a file",
 "Every operation that changes an existing shared record or article file (append, in-place update, removal, body write, body append) takes the file lock first, changes nothing when the lock cannot be taken, and releases the lock on every path after taking it. The lock really excludes other holders.",
 ["schedules","fault_sequences"],"every interleaving of writers and every failure after the lock was taken",
 "Tests have a single writer and no failing writes.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go","filelock/filelock.go"],
 [("lock and unlock calls","filelock.Lock / filelock.Unlock around writes"),("lock implementation","filelock/filelock.go")])
p("C14","Storage failures are always reported to the caller",
 "When any file operation (open, read, seek, write, truncate, lock, stat), encoding step or driver call inside a library operation fails, the operation returns a non-nil error and never reports success; the only failures treated as an empty result are a not-existing article index, draft or favorites file.",
 ["fault_sequences"],"every failing call on every path of every operation",
 "Tests inject no I/O failure.",
 ["bbs.go","pttbbs/board.go","pttbbs/file.go","pttbbs/passwd.go","pttbbs/fav.go","pttbbs/pttbbs.go","pttbbs/draft.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbss_append_new_line.go","cache/mmap.go","cache/systemvshm.go"],
 [("error returns","every call that yields an error inside an operation")])
p("C15","Appending never disturbs what is already stored",
 "Adding a board record or an article record, or appending to an article, writes exactly the bytes of that one record or text, in one write, at the end of the file as it is at that moment; existing contents are never truncated or overwritten. A record of a type the driver cannot store is refused with an error.",
 ["inputs","histories","schedules"],"every existing content, every record value, every interleaving with other appenders",
 "Tests append once to small fixtures and check the size or the last record.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/pttbss_append_new_line.go"],[("append operations","AppendBoardHeaderFileRecord, AppendFileHeaderFileRecord, Connector.AppendBoardArticleFile")])
p("C16","Updating or removing a record touches only that record",
 "Updating the article record at index i overwrites exactly the bytes of record i with the new record. Removing the board record at index i moves every later record one place forward, drops exactly one record's length from the file, and leaves every earlier record untouched. An index with no existing record is reported as an error and changes nothing, and so is a record of a type the driver cannot store.",
 ["inputs","histories"],"every index, file length and record value",
 "Tests remove one last record and update one record.",
 ["pttbbs/board.go","pttbbs/file.go"],[("in-place operations","UpdateFileHeaderFileRecord, RemoveBoardHeaderFileRecord")])
p("C17","Article bodies and drafts are stored and returned verbatim",
 "After writing an article body or a draft the file holds exactly the given bytes, with nothing of an earlier, longer content left behind; reading an article body or draft returns exactly the file's bytes. A draft that does not exist reads as empty, and deleting a draft removes exactly that draft's file.",
 ["inputs","histories"],"every previous content, every new content, every order of writes and reads",
 "Tests write one body or draft to a fresh file.",
 ["pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs.go","pttbbs/draft.go","user_draft.go"],[("body write","Connector.WriteBoardArticleFile"),("drafts","Connector.ReadUserDraft, WriteUserDraft, DeleteUserDraft")])
p("C18","A new article always gets a file name nobody else has",
 "Choosing a name for a new article atomically creates the file with that name in the board's directory and fails over to another name when it already exists, so two posters never share a file, and the returned name is the one that was created. Any other failure to create the file ends the operation with an error instead of retrying forever.",
 ["schedules","histories","fault_sequences"],"every set of existing files, every interleaving of posters, every creation failure",
 "Tests create one article in an existing directory.",
 ["pttbbs/pttbbs_write_article_connector.go"],[("exclusive creation loop","Connector.CreateBoardArticleFilename, Connector.NewArticleRecordWithMap")])
p("C19","Each database operation acts on the object it was asked for",
 "Every database operation obtains the location of the object it is named after from the driver using exactly the identifiers it was given, performs the matching driver action on that location with exactly the data it was given, and returns the driver's result unchanged.",
 ["inputs","configurations"],"every driver implementation and every identifier and data value",
 "Tests use one driver and fixture ids, and several operations have no test at all.",
 ["bbs.go","pttbbs/pttbbs.go","pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs_write_board_connector.go","pttbbs/pttbss_append_new_line.go"],[("facade","bbs.go DB methods"),("pttbbs driver","Connector methods that delegate to file functions")])
p("C20","An operation the driver does not support returns an error",
 "When the driver behind an opened database lacks an optional capability (writing boards, writing articles, drafts), the operations that need it return an error; they never panic and never touch storage. An operation that a driver does not offer yet returns an error too, never a success that did not happen.",
 ["configurations"],"every driver, with every subset of the optional capabilities",
 "The only driver in the repository supports them all.",
 ["bbs.go"],[("capability checks","bbs.go DB methods that need WriteBoardConnector, WriteArticleConnector or UserDraftConnector")])
p("C21","Shared in-process state is safe for concurrent use",
 "Registering drivers, opening databases and calling any database, driver, codec or password operation from several goroutines at once is free of data races on the library's own package-level state: state written after start-up is only accessed under a lock.",
 ["schedules"],"every interleaving of goroutines",
 "Tests are single threaded.",
 ["bbs.go","pttbbs/pttbbs.go","pttbbs/pttbbs_write_article_connector.go","crypt/crypt.go","crypt/const.go"],[("driver registry","bbs.go Register, Open"),("package-level tables","crypt/const.go")],None,[("drivers","registered drivers by name","bbs.go")])
p("C22","Databases opened on different homes stay independent",
 "Opening a database never changes which home directory an already opened database reads and writes.",
 ["histories","schedules"],"every sequence of opens and operations",
 "Tests open one database for each process.",
 ["bbs.go","pttbbs/pttbbs.go"],[("open","bbs.go Open, pttbbs/pttbbs.go Connector.Open")],None,[("home","home directory of the opened BBS","pttbbs.Connector.home")])
p("C23","Decoded values and caller data are never shared behind the caller's back",
 "A decoded record owns its data: changing or reusing the input bytes afterwards, or a later change of the shared memory, does not change it. No operation modifies the slices, maps or bytes its caller passed in, including the spare capacity of slices.",
 ["inputs","histories","schedules"],"every argument, every later change of the input buffer",
 "Tests neither modify the input after decoding nor look at their arguments after the call.",
 ["pttbbs/userinfo.go","pttbbs/path.go","pttbbs/board.go","pttbbs/file.go","pttbbs/passwd.go","pttbbs/fav.go","crypt/crypt.go","cstr.go"],[("copies","decoders, path getters, Fcrypt")])
p("C24","A password is accepted only if its hash equals the whole stored hash",
 "Password verification reports success exactly when hashing the given password with the salt of the stored hash yields the complete stored hash; in every other case, including an empty, short or malformed stored hash and a hashing failure, it returns an error.",
 ["inputs"],"every stored hash and every password",
 "Tests check one right and one wrong password.",
 ["pttbbs/passwd.go","crypt/bbscrypt.go"],[("comparison","pttbbs/passwd.go Userec.VerifyPassword"),("hash entry point","crypt/bbscrypt.go Fcrypt")])
p("C25","The password hash is the traditional DES crypt",
 "For every password and every two-character salt from the crypt alphabet the hash function computes the traditional DES crypt(3) value: the salt followed by the 11-character encoding of 25 salted DES encryptions of the zero block under the key made of the first eight password characters. It depends on nothing but its arguments and changes neither them nor any shared state. The value is 13 characters followed by a zero byte; a salt that is too short or not 7-bit is refused with an error.",
 ["inputs"],"every password (any bytes, any length) and every salt",
 "Eight vectors; table entries and salt or key handling not exercised by them can be wrong.",
 ["crypt/crypt.go","crypt/const.go","crypt/utils.go","crypt/bbscrypt.go"],[("constant tables","crypt/const.go"),("key schedule, rounds and output coding","crypt/crypt.go")])
p("C26","Access tokens are issued only after the right password was verified",
 "The token endpoint hands out a signed access token only after the password in the request was successfully verified against the record of the user in the request; the token's subject is that user and it expires within an hour after it was issued. Unknown users and wrong passwords never obtain a token.",
 ["inputs","histories"],"every request and every point in time",
 "Tests only check that a token string can be made.",
 ["serverlet/route_token.go"],[("token endpoint","serverlet/route_token.go postToken, verifyPassword, newAccessTokenWithUsername")])
p("C27","Private user information is served only to a permitted token",
 "The user-information endpoint answers with a user's data only after the permission check for the presented token, the read-user-information permission and that same user succeeded; a token that does not grant it is rejected with 401 and no data. The answer describes the requested user.",
 ["inputs"],"every request, token and user",
 "The single test sends a matching token.",
 ["serverlet/route_users.go","serverlet/permissions.go"],[("permission gate","serverlet/route_users.go getUserInformation"),("permission check","serverlet/permissions.go checkTokenPermission")])
p("C28","Passwords and password hashes never reach logs or responses",
 "Neither a cleartext password nor a stored password hash (nor a whole user record, which contains one) nor an issued token's signing key is ever written to a log, to standard output or into a response (a record printed as a pointer inside a slice shows only its address and is not a leak).",
 ["inputs"],"every request and stored record",
 "Tests do not look at the log.",
 ["serverlet/route_token.go","serverlet/main.go","pttbbs/passwd.go","bbs.go","cmd/bbstool/main.go"],[("log and response sinks","log.*, fmt.Print*, ResponseWriter.Write sites")])
p("C29","The library never terminates the process that uses it",
 "No library operation exits the process, calls a fatal logger or panics deliberately, whatever it reads; failures are returned as errors.",
 ["inputs","fault_sequences"],"every input and failure",
 "A fatal exit on a rare read error is never reached by tests.",
 ["pttbbs/login_recent.go","bbs.go","pttbbs","cache","crypt","formosabbs","filelock"],[("absence of exits","all library packages")])
p("C30","Flag bits keep their published meaning",
 "Each board attribute query, article mark query and user setting query answers true exactly when the bit that the PTT headers assign to that attribute is set in the stored flag word, independently of all other bits.",
 ["inputs"],"every 32-bit (or 8-bit) flag word",
 "Tests check a few flag words.",
 ["pttbbs/board.go","pttbbs/file.go","pttbbs/usersettings.go","pttbbs/const.go"],[("masks","pttbbs/board.go Is* methods, pttbbs/usersettings.go get*ByUserrec, pttbbs/const.go Uf*/File*")])
p("C31","The shared-memory cache reads each value at its configured position",
 "For every memory-mapping setting (number of users, id length, cool-down, hash bits, alignment) the version, the id of user n, the money of user n and the online record n are read from the offsets that the PTT shared-memory structure has for that setting; an unset alignment means none. A uid outside the configured users, or any position outside the mapped range, yields an empty value, never another object's bytes.",
 ["inputs","configurations"],"every setting, every uid, every mapped size",
 "Tests use one setting and a 4-byte segment.",
 ["pttbbs/cache.go"],[("position computation","pttbbs/cache.go caculatePos"),("accessors","Cache.Version, UserID, Money, UserInfo")])
p("C32","The recommendation score saturates",
 "However often an article is recommended or disliked, a stored score that is in range stays within -100 to +100 and moves by exactly the given amount inside that range; it never wraps around.",
 ["histories","inputs"],"every sequence of score changes",
 "Tests add a single step.",
 ["pttbbs/file.go"],[("score update","pttbbs/file.go FileHeader.AddRecommend")])
p("C33","Text conversion never silently drops text",
 "Converting text to or from Big5 processes the whole input: a character that has no counterpart is replaced, and the text after it is still converted.",
 ["inputs"],"every text",
 "Tests convert text that is fully representable.",
 ["big5.go","pttbbs/encoding.go"],[("converters","big5.go Utf8ToBig5, Big5ToUtf8")])
p("C34","Comments are complete, attributed and numbered in order",
 "Listing the comments of an article considers every line of the article (without its colour codes), returns one record for each comment line in article order, numbers them 1, 2, 3, ... without gaps, and attributes each to the given board and article; a line that is not a comment is skipped, and a failure to read or parse is reported instead of returning a partial list.",
 ["inputs"],"every article text",
 "Tests use one article of two comments.",
 ["bbs.go","user_comment_record.go"],[("scan loop","bbs.go DB.GetBoardArticleCommentRecords"),("record construction","user_comment_record.go NewUserCommentRecord")])
p("C35","Lists of a user's articles and comments are exactly that user's",
 "Listing the articles (or comments) of a user returns, for every board except the all-posts mirror and unused board slots, exactly the entries whose owner is that user, each with the board it came from and its own title and file name, in board and index order; a non-empty list kept by the driver is returned as it is.",
 ["inputs"],"every set of boards, articles and owners",
 "Tests check one user in the fixtures.",
 ["bbs.go","user_article_record.go"],[("aggregation loops","bbs.go DB.GetUserArticleRecordFile, GetUserCommentRecordFile, GetBoardUserCommentRecord"),("entry accessors","user_article_record.go")])
p("C36","New records carry exactly the caller's attributes",
 "A newly created board or article record holds each given argument in the attribute of that name and nothing else, and creation fails with an error when a required argument is missing or is not text; creating an article first reserves a file name in the given board and records that name.",
 ["inputs"],"every argument value and every subset of arguments",
 "Tests create records with complete, distinct arguments once.",
 ["pttbbs/pttbbs_write_article_connector.go","pttbbs/pttbbs_write_board_connector.go","bbs.go"],[("constructors","NewBoardRecord, NewArticleRecord, NewArticleRecordWithMap, DB.CreateArticleRecord")])
p("C37","Login log lines are decoded and encoded field by field",
 "A login-attempt line is decoded into its success mark, 12-column user id, bracketed time and host (with only the '?@' marker removed), in both the system-wide and the per-user form, and encoding produces the same line format; a recent-login line is decoded into its time and host. A line that does not have the format is reported as an error.",
 ["inputs"],"every log line",
 "Tests use a few well-formed lines.",
 ["pttbbs/bad_logins.go","pttbbs/login_recent.go"],[("line codecs","LoginAttempt.UnmarshalText, LoginAttempt.MarshalText, NewLoginRecentRecord")])
p("C38","No request can crash the HTTP sample server's handlers",
 "Every HTTP handler of the sample server answers every request, with any method, path, form or header that the server routes to it and any loaded data, without panicking.",
 ["inputs"],"every request",
 "Tests send one well-formed request.",
 ["serverlet/main.go","serverlet/route_users.go","serverlet/route_token.go","serverlet/route_boards.go","serverlet/route_classes.go"],[("handlers","serverlet route* functions")])
p("C39","A command of the tool stops at the first failed step",
 "Every subcommand of the command line tool stops, before doing anything further, when opening the BBS home, reading its arguments or any step fails, and never panics on missing arguments. Posting an article makes the article visible in the board's index only after its body was written.",
 ["inputs","fault_sequences"],"every command line and every failing step",
 "The tool has no test of failing steps.",
 ["cmd/bbstool/main.go","cmd/bbstool/articles.go"],[("command functions","cmd/bbstool show*/add* functions")])
p("C40","A crash in the middle of a write never corrupts other records",
 "If the process or machine stops at any point during an append, update or removal, every record other than the one being written is still intact after restart.",
 ["crash_points"],"every crash point of every write",
 "Tests never crash.",
 ["pttbbs/board.go","pttbbs/file.go"],[("write sequences","AppendBoardHeaderFileRecord, RemoveBoardHeaderFileRecord, UpdateFileHeaderFileRecord")])
p("C41","Concurrent operations of several processes appear one after another",
 "The observable history of record reads and writes by several processes on one BBS home is equivalent to some sequential order.",
 ["schedules","histories"],"every interleaving of several processes",
 "Tests run in one process.",
 ["pttbbs/board.go","pttbbs/file.go","filelock/filelock.go"],[("file operations","readers and writers of .BRD and .DIR")])
p("C42","Big5-UAO text survives a decode and encode round trip",
 "Every Big5-UAO text, the Japanese and extension characters of the UAO table included, is unchanged after decoding to UTF-8 and encoding back.",
 ["inputs"],"every double-byte sequence of Big5-UAO",
 "Tests convert a few characters.",
 ["big5.go"],[("converters","big5.go, golang.org/x/text traditionalchinese")])
p("C43","The text of a comment is extracted exactly as typed",
 "For every comment line in the PTT format (a mark, the user id, a colon, the text, the date), with any colour codes in it, the author, the text without surrounding blanks and the time of the comment are exactly the ones in the line, also when the text contains colons, ids or dates itself; every such line with a valid date is a comment, and a line without an id, a colon and a date after it is reported as no comment. The colour filter takes out exactly the colour codes and keeps text without an escape as it is.",
 ["inputs"],"every comment line, colour code and comment text",
 "Tests parse a few sample lines.",
 ["user_comment_record.go","ansi.go"],[("patterns and parsing","user_comment_record.go parseUserComment, NewUserCommentRecord"),("colour filter","ansi.go FilterStringANSI")])
p("C44","A database is opened with the driver of the name given",
 "Opening a database uses the driver that was registered under exactly the given name, or a new connector that driver makes, gives it the data source unchanged and keeps that connector; it fails when there is no such driver or the driver fails to open, and succeeds otherwise. The PTT driver is registered as 'pttbbs' by importing its package.",
 ["inputs","configurations"],"every driver name, data source and set of registered drivers",
 "Tests open the one registered driver.",
 ["bbs.go","pttbbs/pttbbs.go"],[("driver table","bbs.go Register, Open"),("registration","pttbbs/pttbbs.go init, NewConnector")])
p("C45","A cache is exactly the memory its connection string names",
 "Opening 'shmkey:N' gives the bytes of the existing System V segment with key N, and 'file:PATH' or a plain path the bytes of that file, all of them, shared with every other process and writable; opening creates, empties or resizes nothing, any other scheme is an error, and any failed step is an error. Creating makes memory of the given size, removing removes only the memory named, and the system never writes outside the structures it is given.",
 ["inputs","configurations"],"every connection string, key, path and size",
 "Tests open one segment and one file of fixed size.",
 ["cache/cache.go","cache/mmap.go","cache/systemvshm.go","pttbbs/cache.go"],[("connection strings","cache/cache.go NewCache"),("mapped files","cache/mmap.go, cache/mmap_unix.go"),("segments","cache/systemvshm.go, cache/systemvshm_unix.go, cache/systemvshm_linux.go"),("driver cache","pttbbs/cache.go NewCache")])
p("C46","Each command of the tool does what its name says, on what it was given",
 "Every subcommand of the command line tool works through the driver and on the home directory given by its flags and applies exactly the operation its name says to the objects its arguments name ('--name value', value taken as is). It stores the text given, or that of the file given, converted to Big5, and prints every record of the answer except unused slots, in order, or the text of the article asked for.",
 ["inputs","configurations"],"every command, argument list, home and content",
 "The tool has no tests of its commands.",
 ["cmd/bbstool/main.go"],[("flags and arguments","cmd/bbstool/main.go main, parseArgsToMap"),("lists","cmd/bbstool/main.go showboardlist, showuserlist, showuserarticlelist, showusercommentlist"),("articles","cmd/bbstool: showBoardArticleList, addBoardArticle, showBoardArticle"),("adding a board","cmd/bbstool/main.go addboard")])
p("C47","The sample server answers what the home it opened holds",
 "The server opens one home, loads its users and boards from it, and listens only when the home is open. GET /v1/boards answers every board loaded, in order ([] when there are none). GET /v1/users/ID/information answers, for the user with that id, all the keys with the values of that record: numbers in decimal, the time in RFC 3339; a user that is in the list is always found. POST /v1/token answers the token that was signed, of type bearer; when it is refused the answer is an object with error = grant_error and an error_description instead. A GET under /v1/users/ that gets no information gets an error status (for a user that does not exist with error = find_userrec_error and an error_description), and so does any GET under /v1/classes/.",
 ["inputs","configurations"],"every list of records, user id, path and method",
 "The one server test asks for one user of a list of one.",
 ["serverlet/main.go","serverlet/route_boards.go","serverlet/route_users.go","serverlet/route_token.go"],[("start","serverlet/main.go main, loadPasswdsFile, loadBoardFile"),("boards","serverlet/route_boards.go getBoards"),("user information","serverlet/route_users.go getUsers, getUserInformation"),("tokens","serverlet/route_token.go postToken, findUserecByID")])
p("C48","The keyed FNV hash starts from the value it is given",
 "The hash of user names made with a start value is FNV-1a of 32 bits whose state is exactly that value, all 32 bits of it, for every value, so that what it computes agrees with the hash table other PTT programs keep in shared memory; the start value of PTT is 33554467.",
 ["inputs"],"every start value and every name",
 "Tests hash three names from four start values.",
 ["pttbbs/internal/fnv/fnv.go"],[("start value","pttbbs/internal/fnv/fnv.go New32aWith, PttFnv32Init")])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
