LS, LSC, LG, PS, TC, UT, CO = 'include/falcon/logsystem.h', 'engine/logsystem.cpp', 'engine/logger.cpp', 'include/falcon/engine/pagedstack.h', 'fut/testcase.cpp', 'fut/unittest.cpp', 'engine/code.cpp'
V('C38', 'bad', LSC, '\t\tm_unpooled(0),\n', '')
V('C38', 'bad', LSC, '\t\tm_destroyed(0),\n', '')
V('C38', 'bad', LSC, '\t\tm_maxMsgQueueSize(0),\n', '')
V('C38', 'bad', LSC, 'm_msgReceived(0),\n\t\tm_isTerminated(false)', 'm_msgReceived(0)')
V('C38', 'bad', LSC, '\t\tm_logThread(0),\n', '')
V('C38', 'bad', LSC, '\t\tm_level(LEVEL::TRACE),\n', '')
V('C38', 'bad', LSC, '\t\tm_maxMsgQueueSize(0),\n', '', LSC, '\tif(startNow) {\n', '\tif(startNow) {\n\t\tm_maxMsgQueueSize = 0;\n')
V('C38', 'bad', LS, 'm_line(0),', '')
V('C38', 'bad', LS, '\t\t  m_enabled(true),\n', '')
V('C38', 'same', PS, 'm_pageSize{DEFAULT_PAGE_SIZE}', 'm_pageSize')
V('C38', 'bad', PS, 'm_syncIterCount{0}', 'm_syncIterCount')
V('C38', 'bad', TC, 'status{TestCase::NONE}', 'status')
V('C38', 'bad', TC, '*outbuf{nullptr}', '*outbuf')
V('C38', 'bad', TC, 'failLine{0}', 'failLine')
V('C38', 'bad', UT, 'failedCount{0}', 'failedCount')
V('C38', 'bad', UT, '      status(0),\n', '')
V('C38', 'bad', CO, 'm_source(source), m_line(line), m_data', 'm_source(source), m_data')
V('C38', 'bad', CO, '\t\tm_line(other.m_line), m_data(other.m_data)', '\t\tm_data(other.m_data)')
V('C38', 'bad', LSC, 'const char* LogSystem::levelToString( LogSystem::LEVEL lvl )\n{', 'const char* LogSystem::levelToString( LogSystem::LEVEL lvl )\n{\n\tint k;\n\tif(lvl == LEVEL::INFO) k = 1;\n\tif(k == 1) return "INFO";')
V('C38', 'same', LSC, '\t\tm_unpooled(0),\n', '', LS, 'm_unpooled;', 'm_unpooled{0};')
V('C38', 'same', LSC, '\t\tm_maxMsgQueueSize(0),\n', '', LSC, '\t// prepare the pool\n', '\tm_maxMsgQueueSize = 0;\n')
V('C38', 'same', LSC, '\t\tm_maxMsgQueueSize(0),\n', '', LSC, '\tif(startNow) {\n\t\tstart();\n\t}', '\tif(startNow) {\n\t\tm_maxMsgQueueSize = 0;\n\t\tstart();\n\t}\n\telse m_maxMsgQueueSize = 0;')
V('C38', 'same', LS, 'class FALCON_API_ LogSystem\n', 'struct LogCounters { char buf[16]; int a{0}; int b = 1; };\nclass FALCON_API_ LogSystem\n')
V('C38', 'same', CO, '{\n\tother.m_data = nullptr;', '{\n\tconst auto none = nullptr;\n\tother.m_data = none;')
