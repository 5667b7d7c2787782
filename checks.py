"""Which sources and harnesses make up each simulation, and which property uses which."""
ASIO = 'sim/shim: Boost.Asio (io_service, timers, sockets, ssl) replaced by a simulated implementation'
THR = 'sim/core/fiber.cpp: pthread API on fibers (boost.thread/libstdc++ above it are real)'
CLK = 'clocks and sleeps: simulated time'
NETS = 'network: simulated TCP with delays, splits, flow control, resets and accept errors; SSL handshake and cipher replaced by a toy protocol'
HTTP = ['src/http_server.cpp', 'src/http_reader.cpp', 'src/http_writer.cpp', 'src/http_parser.cpp', 'src/http_message.cpp', 'src/http_types.cpp', 'src/http_auth.cpp', 'src/tcp_server.cpp', 'src/tcp_timer.cpp', 'src/scheduler.cpp', 'src/admin_rights.cpp', 'src/algorithm.cpp', 'src/logger.cpp']
HTTPH = ['include/pion/http/*.hpp', 'include/pion/tcp/server.hpp', 'include/pion/tcp/connection.hpp', 'include/pion/scheduler.hpp']
GROUPS = {
    'sched': dict(sources=['src/scheduler.cpp', 'src/logger.cpp'], harness=['sched.cpp'], real=['include/pion/scheduler.hpp'], stubs=[ASIO, THR, CLK]),
    'misc': dict(sources=['src/process.cpp', 'src/admin_rights.cpp', 'src/logger.cpp'], harness=['misc.cpp'], core=['fs.cpp'], real=['include/pion/user.hpp', 'include/pion/process.hpp', 'include/pion/admin_rights.hpp', 'OpenSSL SHA1/SHA256'],
                 stubs=[THR, CLK, 'sim/core/fs.cpp: in-memory file system under the libc calls (/etc/passwd, /etc/group)', 'geteuid/seteuid and relatives: a credential model with injected failures (never the real system calls)']),
    'plugin': dict(sources=['src/plugin.cpp', 'src/logger.cpp'], harness=['plugin.cpp'], core=['fs.cpp'], defs=['-Ddlopen=sim_dlopen', '-Ddlsym=sim_dlsym', '-Ddlclose=sim_dlclose', '-Ddlerror=sim_dlerror'],
                 real=['include/pion/plugin.hpp', 'include/pion/plugin_manager.hpp', 'Boost.Filesystem'], stubs=[THR, CLK, 'sim/core/fs.cpp: in-memory file system under the libc calls', 'dlopen/dlsym/dlclose: a model of six libraries']),
    'parser': dict(variant='asan', sources=['src/http_parser.cpp', 'src/http_message.cpp', 'src/http_types.cpp', 'src/algorithm.cpp', 'src/logger.cpp'], harness=['parser.cpp'], libs=['-Wl,--unresolved-symbols=ignore-all'],
                 real=['include/pion/http/parser.hpp', 'include/pion/http/message.hpp', 'include/pion/http/request.hpp', 'include/pion/http/response.hpp'], stubs=['transport: a simulated fragmenting, truncating, corrupting and losing byte stream', 'operator new: huge requests fail']),
    'spdy': dict(variant='asan', sources=['src/spdy_parser.cpp', 'src/spdy_decompressor.cpp', 'src/algorithm.cpp', 'src/logger.cpp'], harness=['spdy.cpp'], libs=['-lz'],
                 real=['include/pion/spdy/parser.hpp', 'include/pion/spdy/decompressor.hpp', 'zlib'], stubs=['transport: simulated packets in guarded memory', 'peer: a SPDY/2 client and server model with their own compressors']),
    'tcp': dict(sources=['src/tcp_server.cpp', 'src/tcp_timer.cpp', 'src/scheduler.cpp', 'src/admin_rights.cpp', 'src/logger.cpp'], harness=['tcp.cpp'],
                 real=['include/pion/tcp/server.hpp', 'include/pion/tcp/connection.hpp', 'include/pion/scheduler.hpp'], stubs=[ASIO, THR, CLK, 'network: simulated TCP with delays, splits, flow control, resets, accept and bind errors; SSL handshake and cipher replaced by a toy protocol']),
    'stream': dict(sources=['src/scheduler.cpp', 'src/logger.cpp'], harness=['stream.cpp'],
                 real=['include/pion/tcp/stream.hpp', 'include/pion/tcp/connection.hpp', 'include/pion/scheduler.hpp'], stubs=[ASIO, THR, CLK, 'network: simulated TCP; SSL handshake and cipher replaced by a toy protocol']),
    'connect': dict(sources=['src/scheduler.cpp', 'src/logger.cpp'], harness=['connect.cpp'],
                 real=['include/pion/tcp/connection.hpp', 'include/pion/tcp/stream.hpp', 'include/pion/scheduler.hpp'], stubs=[ASIO, THR, CLK, 'network: simulated TCP; SSL handshake and cipher replaced by a toy protocol', 'name resolution: a table of names and addresses, some of them refusing, unreachable or silent, changing over time']),
    'http': dict(sources=HTTP, harness=['http.cpp'],
                 real=HTTPH, stubs=[ASIO, THR, CLK, NETS, 'clients: an independent HTTP model']),
    'msg': dict(sources=HTTP, harness=['msg.cpp'], real=HTTPH, stubs=[ASIO, THR, CLK, NETS, 'proxy between the two library ends: cuts, resets and stalls']),
    'auth': dict(sources=HTTP + ['src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp'], harness=['auth.cpp'], real=HTTPH + ['include/pion/user.hpp', 'OpenSSL SHA256'], stubs=[ASIO, THR, CLK, NETS, 'clients and administrators: a model of users, restrictions and sessions over time']),
    'file': dict(sources=HTTP + ['src/plugin.cpp', 'services/FileService.cpp'], harness=['file.cpp'], core=['fs.cpp'], real=HTTPH + ['services/FileService.hpp', 'Boost.Filesystem and its streams'], stubs=[ASIO, THR, CLK, NETS, 'sim/core/fs.cpp: in-memory file system under the libc calls', 'clients and editors: a model of every version of every file']),
    'plugsrv': dict(sources=HTTP + ['src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'src/plugin.cpp', 'src/http_plugin_server.cpp'], harness=['plugsrv.cpp'], core=['fs.cpp'], defs=['-Ddlopen=sim_dlopen', '-Ddlsym=sim_dlsym', '-Ddlclose=sim_dlclose', '-Ddlerror=sim_dlerror'],
                    real=HTTPH + ['include/pion/http/plugin_server.hpp', 'include/pion/http/plugin_service.hpp', 'include/pion/plugin_manager.hpp', 'include/pion/plugin.hpp', 'Boost.Filesystem'], stubs=[ASIO, THR, CLK, NETS, 'sim/core/fs.cpp: in-memory file system under the libc calls', 'dlopen/dlsym/dlclose: a model of three libraries', 'web services that record their calls']),
    'inject': dict(sources=HTTP + ['src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'src/plugin.cpp', 'src/http_plugin_server.cpp', 'services/FileService.cpp', 'services/CookieService.cpp', 'services/EchoService.cpp', 'services/HelloService.cpp', 'services/AllowNothingService.cpp'], harness=['inject.cpp'], core=['fs.cpp'],
                   real=HTTPH + ['services/*.hpp', 'include/pion/http/plugin_server.hpp'], stubs=[ASIO, THR, CLK, NETS, 'sim/core/fs.cpp: in-memory file system under the libc calls', 'clients: hostile HTTP requests and an independent response parser']),
    'multi': dict(sources=['src/http_parser.cpp', 'src/http_message.cpp', 'src/http_types.cpp', 'src/spdy_parser.cpp', 'src/spdy_decompressor.cpp', 'src/algorithm.cpp', 'src/logger.cpp'], harness=['multi.cpp', 'parser.cpp', 'spdy.cpp'], libs=['-lz', '-Wl,--unresolved-symbols=ignore-all'],
                  real=['include/pion/http/*.hpp', 'include/pion/spdy/*.hpp', 'include/pion/algorithm.hpp', 'zlib'], stubs=[THR, CLK, 'gmtime/strftime: the C library functions with the shared result made visible', 'transport: simulated segments and packets']),
    'timeo': dict(sources=HTTP, harness=['timeo.cpp'], real=HTTPH, stubs=[ASIO, THR, CLK, NETS, 'peer: an independent HTTP model']),
}
CHECKS = {
    'P01': dict(group='sched'),
    'P02': dict(group='sched'),
    'P18': dict(group='misc'),
    'P26': dict(group='misc'),
    'P28': dict(group='misc'),
    'P32': dict(group='misc'),
    'P19': dict(group='plugin'),
    'P20': dict(group='plugin'),
    'P07': dict(group='timeo'),
    'P08': dict(group='parser'),
    'P09': dict(group='parser'),
    'P10': dict(group='parser'),
    'P03': dict(group='tcp'),
    'P04': dict(group='tcp'),
    'P05': dict(group='tcp'),
    'P06': dict(group='stream'),
    'P33': dict(group='connect'),
    'P11': dict(group='http'),
    'P12': dict(group='http'),
    'P13': dict(group='msg'),
    'P14': dict(group='http'),
    'P15': dict(group='auth'),
    'P16': dict(group='auth'),
    'P17': dict(group='auth'),
    'P21': dict(group='file'),
    'P22': dict(group='file'),
    'P23': dict(group='file'),
    'P24': dict(group='spdy'),
    'P27': dict(group='plugsrv'),
    'P29': dict(group='inject'),
    'P25': dict(group='spdy'),
    'P30': dict(group='multi'),
    'P31': dict(group='parser'),
}
