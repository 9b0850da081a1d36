"""Properties this family of technique does not decide here, with the reason."""
from props import *
I = "include/neolib/"
def na(id, title, statement, files, where, reason, over=("inputs", "histories"), quant="every input and history", why="Tests sample a few inputs."):
    NAP(id, title, statement, list(over), quant, why, files, [("mechanism", where)], reason)
na("C81", "Tasks given to threads and pools run exactly once, and waits end",
   "A task given to a thread, thread pool or async task runs exactly once, on a thread of the pool, in order of priority where one is given; waiting returns when the work is done; destroying a pool leaves no thread behind.",
   [I + "task/thread_pool.hpp", I + "task/thread.hpp", I + "task/async_task.hpp", I + "task/waitable_event.hpp", "src/task/thread_pool.cpp"], "src/task/thread_pool.cpp",
   "Needs schedules of real std::thread/condition_variable/pthread code as symbolic variables; the executor is single-threaded and CBMC's C++ front end does not take these sources. Sequentialising by hand would check a model, not the code.", ("schedules", "histories"), "every interleaving", "Tests run one schedule.")
na("C82", "gzip and zip contents unpack to what was packed",
   "Unpacking a gzip stream or a member of a zip archive gives exactly the bytes that were packed, and a damaged archive is reported.",
   [I + "file/gunzip.hpp", I + "file/zip.hpp", "src/file/gunzip.cpp", "src/file/zip.cpp"], "src/file/zip.cpp",
   "The behaviour is zlib's, an external compiled library whose source is not in /repo; what neolib adds is a loop around inflate() that means nothing without it. The CRC wrapper (src/core/crc.cpp) is likewise one call of zlib.")
na("C83", "Network packet streams deliver packets whole and in order",
   "Packets sent over a TCP or UDP packet stream arrive whole and in order whatever way the transport splits them, and close and error are reported once.",
   [I + "io/packet_stream.hpp", I + "io/tcp_packet_stream_server.hpp", I + "io/resolver.hpp"], "packet_stream.hpp",
   "The code is completion handlers run by boost::asio's reactor over sockets (system calls, epoll, threads): not encodable here. The framing itself is decided in C30 for every chunking.", ("schedules", "inputs"), "every chunking and completion order", "There is no network test.")
na("C84", "Timers fire no earlier than asked and not after being cancelled",
   "A timer's callback runs once per period, no earlier than its due time, and never after cancel or destruction.",
   [I + "task/timer.hpp", I + "task/timer_object.hpp", "src/task/timer.cpp", "src/task/async_task.cpp"], "src/task/timer.cpp",
   "Built on asio deadline timers, the wall clock and the async task thread, and not part of what compiles in this environment (mutex.hpp needs a boost internal this boost does not have).", ("schedules",), "every clock and order of expiry", "There is no timer test.")
na("C85", "Plugins are found, loaded once and unloaded after last use",
   "The plugin manager loads every plugin of a folder once, discovers interfaces by id, and unloads a library only when nothing from it is in use.",
   [I + "plugin/plugin_manager.hpp", I + "app/module.hpp", "src/plugin/plugin_manager.cpp", "src/app/module.cpp"], "src/plugin/plugin_manager.cpp",
   "dlopen of real shared libraries and directory listing; and these sources do not compile in this environment.", ("histories",), "every set of plugins and order of use", "There is no plugin test.")
na("C86", "Easing and other transcendental functions stay within their curves",
   "Easing functions start at 0, end at 1 and follow their curve; angle and distance functions are within rounding of the real functions.",
   [I + "core/easing.hpp", I + "core/numerical.hpp"], "easing.hpp",
   "Real sin/pow/sqrt from libm: Z3 has no theory of these over floating point, and libm's own code (tables, long double) is out of reach. The algebraic parts of numerical.hpp are decided in C31 and C32.", ("inputs",), "every argument")
na("C87", "Case conversion and case-insensitive strings follow Unicode case rules",
   "to_upper, to_lower and the case-insensitive string classes compare and convert by Unicode case mapping.",
   [I + "core/string_ci.hpp", I + "core/string_utf.hpp"], "string_utf.hpp: to_lower/to_upper",
   "The mapping comes from boost::locale (ICU or the system locale), external compiled code and data.", ("inputs",), "every text")
na("C88", "HTTP requests and OAuth signatures follow their formats",
   "An HTTP response is parsed into status, headers and body whatever way it is split; OAuth signatures are those of the specification.",
   [I + "io/http.hpp", I + "io/oauth.hpp", "src/io/http.cpp", "src/io/oauth.cpp"], "src/io/http.cpp",
   "Does not compile in this environment, needs the async networking layer (see C83), and OAuth needs OpenSSL's HMAC.", ("inputs",), "every response and chunking")
