FX, LG, PS, TL, ST, PE, UT, TC, DI, LS, LSH = ('include/falcon/futex.h', 'include/falcon/logger.h', 'include/falcon/engine/pagedstack.h', 'include/falcon/fut/timelapse.h', 'include/falcon/singleton.h',
    'include/falcon/error/parseerror.h', 'include/falcon/fut/unittest.h', 'include/falcon/fut/testcase.h', 'include/falcon/engine/distribute.h', 'include/falcon/logstream.h', 'include/falcon/logsystem.h')
V('C35', 'bad', LG, 'inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes', 'const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes')
V('C35', 'bad', PE, '#include <stdexcept>\n', '')
V('C35', 'bad', PE, '#define _FALCON_PARSEERROR_H_', '')
V('C35', 'bad', PE, '#ifndef _FALCON_PARSEERROR_H_\n#define _FALCON_PARSEERROR_H_', '#ifndef _FALCON_SINGLETON_H_\n#define _FALCON_SINGLETON_H_')
V('C35', 'bad', TL, 'class TimeLapse', 'static int lapses = 0;\nclass TimeLapse')
V('C35', 'bad', TL, 'class TimeLapse', 'int lapses = 0;\nclass TimeLapse')
V('C35', 'bad', TL, 'class TimeLapse', 'namespace { struct Clock { int x; }; inline int get(Clock c) {return c.x;} }\nclass TimeLapse')
V('C35', 'bad', TL, 'class TimeLapse', 'int64 lapseOf(int64 a) { return a; }\nclass TimeLapse')
V('C35', 'bad', ST, '    } mtbl;', '    } mtbl;\n#ifdef NDEBUG\n    int m_count{0};\n#endif')
V('C35', 'bad', ST, '    } mtbl;', '    } mtbl;\n#ifdef _FALCON_LOGGER_H_\n    int m_count{0};\n#endif')
V('C35', 'bad', TL, '\nclass TimeLapse', '\nint64 lapseOf(int64 a);\nclass TimeLapse')
V('C35', 'bad', UT, 'int64 elapsedTime() const;', 'int64 elapsedTime() const;\n   int64 elapsedTimeNow() const;')
V('C35', 'bad', UT, 'int64 elapsedTime() const;', 'int64 elapsedTime() const;\n   static int s_count;')
V('C35', 'same', TL, '\nclass TimeLapse', '\nstatic inline int64 lapseOf(int64 a) { return a; }\nstatic const int LAPSES = 0;\nconstexpr int LAPSEZ = 1;\ninline int lapsew = 0;\nclass TimeLapse')
V('C35', 'same', TL, '\nclass TimeLapse', '\nstatic int64 lapseOf(int64 a) { return a; }\nnamespace { inline int64 two(int64 a) {return a;} }\nclass TimeLapse')
V('C35', 'same', UT, 'int64 elapsedTime() const;', 'int64 elapsedTime() const;\n   int64 elapsedTimeNow() const = delete;\n   template<typename T> void nothing(const T& t);\nprivate:\n   int secret();\npublic:')
V('C35', 'same', ST, '#ifndef _FALCON_SINGLETON_H_\n#define _FALCON_SINGLETON_H_', '#pragma once\n#if 1')
