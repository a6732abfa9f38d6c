F, T, MK, UT, FX, LG, AT, LS = 'include/falcon/fut/fut.h', 'include/falcon/fut/timelapse.h', 'fut/marktime-unix.c++', 'fut/unittest.cpp', 'include/falcon/futex.h', 'include/falcon/logger.h', 'include/falcon/atomic_gcc.h', 'engine/logsystem.cpp'
# ---------------------------------------------------------------- what a failed check reports
V('C34', 'bad', F, "ss << (_ACTUAL_); \\\n\t\t\tthis->checkFail( __FILE__, __LINE__, #_ACTUAL_ \" should be false\"", "this->checkFail( __FILE__, __LINE__, #_ACTUAL_ \" should be false\"")
V('C34', 'bad', F, "ss << (_ACTUAL_); \\\n\t\t\tthis->checkFail( __FILE__, __LINE__, #_ACTUAL_ \" should be true\"", "this->checkFail( __FILE__, __LINE__, #_ACTUAL_ \" should be true\"")
V('C34', 'bad', F, 'ss << "Expected exception', 'std::string() + "Expected exception')
V('C34', 'bad', F, 'ss << "Exception thrown: \\" " << __excpt__.what() << "\\"";', 'ss << "Exception thrown";')
V('C34', 'same', F, 'ss << "Exception thrown: \\" " << __excpt__.what() << "\\"";', 'const char* what = __excpt__.what(); ss << "Exception thrown: \\" "; ss << std::string(what) << "\\"";')
# ---------------------------------------------------------------- narrow times
V('C40', 'bad', T, 'int64 elapsed() const', 'int32 elapsed() const')
V('C40', 'bad', T, ': now - m_begin;', ': static_cast<int32>(now - m_begin);')
V('C40', 'bad', MK, '(tv.tv_sec * 1000)', 'static_cast<int>(tv.tv_sec * 1000)')
V('C40', 'bad', MK, '(tv.tv_usec / 1000)', 'static_cast<short>(tv.tv_usec) / 1000')
V('C40', 'bad', MK, 'milliseconds(mseconds)', 'milliseconds(static_cast<int>(mseconds))')
V('C40', 'same', MK, '(tv.tv_usec / 1000)', 'static_cast<int>(tv.tv_usec) / 1000')
V('C40', 'same', MK, '(tv.tv_usec / 1000)', 'static_cast<int>(tv.tv_usec / 1000)')
# ---------------------------------------------------------------- memory order of the primitives
V('C23', 'bad', AT, '__sync_synchronize ();', '')
V('C23', 'bad', AT, '__sync_add_and_fetch( &atomic, -1)', '__atomic_add_fetch( &atomic, -1, __ATOMIC_RELAXED)')
V('C23', 'same', AT, '__sync_synchronize ();\n   return atomic;', 'return __atomic_load_n(&atomic, __ATOMIC_ACQUIRE);')
V('C23', 'same', AT, '__sync_add_and_fetch( &atomic, -1)', '__atomic_add_fetch( &atomic, -1, __ATOMIC_ACQ_REL)')
# ---------------------------------------------------------------- what is set is kept
V('C21', 'bad', FX, '      ++m_count;', '')
for s in ('m_msgLine = line;', 'm_msgFile = file;', 'm_msgLevel = lvl;', 'm_tempCategory = category;', '\tm_category = category;'):
    V('C10 C11', 'bad', LG, s, '')
# ---------------------------------------------------------------- the thread object
V('C03', 'bad', LS, 'delete m_logThread;', '')
V('C03', 'bad', LS, '\tm_logThread->join();\n\tdelete m_logThread;\n', '\tm_logThread->join();\n')
V('C03', 'same', LS, '\tm_logThread->join();\n\tdelete m_logThread;\n\tm_logThread = 0;', '\tstd::unique_ptr<std::thread> ended(m_logThread);\n\tm_logThread = nullptr;\n\tended->join();')
V('C03', 'same', LS, '\tm_logThread->join();\n\tdelete m_logThread;\n\tm_logThread = 0;', '\tstd::thread* ended = m_logThread;\n\tm_logThread = nullptr;\n\tended->join();\n\tdelete ended;')
# ---------------------------------------------------------------- order
V('C41', 'bad', UT, 'std::map<std::string, Component> componentToPerform;', 'std::map<std::string, Component, std::greater<std::string>> componentToPerform;')
V('C41', 'bad', UT, 'std::upper_bound(tests.begin(), tests.end(), tcase,', 'std::upper_bound(tests.begin(), tests.begin(), tcase,')
V('C41', 'bad', UT, 'return std::string(first->caseName()) < second->caseName(); }', 'return std::string(second->caseName()) < first->caseName(); }')
V('C41', 'bad', UT, 'return std::string(first->caseName()) < second->caseName(); }', 'return std::string(first->caseName()).size() < std::string(second->caseName()).size(); }')
V('C41', 'same', UT, 'return std::string(first->caseName()) < second->caseName(); }', 'return std::string(first->caseName()).compare(second->caseName()) < 0; }')
V('C41', 'same', UT, 'std::upper_bound(tests.begin()', 'std::lower_bound(tests.begin()')
# ---------------------------------------------------------------- declared test cases
V('C42', 'bad', F, '_COMPONENT_,#_COMPONENT_,#_NAME_)\n\n#ifndef', '_COMPONENT_,"Fixture",#_NAME_)\n\n#ifndef')
V('C42', 'bad', F, '->main(argc, argv);', '->main(1, argv);')
V('C42', 'bad', F, 'return ::falcon::testing::UnitTest::singleton()->main(argc, argv);', '::falcon::testing::UnitTest::singleton()->main(argc, argv); return 0;')
V('C42', 'bad', F, 'addTestCase(_COMPONENT_,_CASE_,new _CLASSNAME_)', 'addTestCase(_COMPONENT_,#_CLASSNAME_,new _CLASSNAME_)')
V('C42', 'bad', UT, '   if (theTest == 0) {\n', '   if (theTest == 0 || theTest->p->tests.size() > 5) {\n')
V('C42', 'same', UT, '   static UnitTest* theTest = 0;\n   if (theTest == 0) {\n      theTest = new UnitTest;\n   }\n\n', '   static UnitTest* theTest = new UnitTest;\n')
V('C42', 'bad', 'fut/fut_main.cpp', '->main(argc, argv);', '->performUnitTests();')
V('C42', 'same', 'fut/fut_main.cpp', 'return ::falcon::testing::UnitTest::singleton()->main(argc, argv);', 'auto* unit = ::falcon::testing::UnitTest::singleton();\n\t\tconst int status = unit->main(argc, argv);\n\t\treturn status;')
# ---------------------------------------------------------------- performing again
V('C43', 'bad', UT, '   p->componentToPerform.clear();\n   for', '   for')
V('C43', 'bad', UT, '   if(performAll) {\n      testsToPerform.clear();\n   }\n', '')
V('C43', 'bad', UT, '   if(performAll) {\n      testsToPerform.clear();\n   }\n', '   testsToPerform.clear();\n')
V('C43', 'bad', UT, '   p->status = 0;\n   p->failedCount = 0;\n', '   p->failedCount = 0;\n')
V('C43', 'bad', UT, '   p->status = 0;\n   p->failedCount = 0;\n', '   p->status = 0;\n')
V('C43', 'bad', 'fut/testcase.cpp', 'p->outCapture.str("");', '')
V('C43', 'same', UT, '   if(performAll) {\n      testsToPerform.clear();\n   }\n   return p->status;', '   const int status = p->status;\n   if(performAll) {\n      p->testsToPerofm = std::vector<TestCase*>();\n   }\n   return status;')
V('C43', 'same', UT, '   p->componentToPerform.clear();\n   for', '   while(!p->componentToPerform.empty()) {\n      p->componentToPerform.erase(p->componentToPerform.begin());\n   }\n   for')

# ---------------------------------------------------------------- dismissed listeners are not destroyed under the lock
L2 = 'engine/logsystem.cpp'
PUSH = 'if(detached) { dismissed.push_back(listener); }'
V('C02', 'bad', L2, PUSH, '')
V('C02', 'bad', L2, PUSH, 'if(!detached) { dismissed.push_back(listener); }')
V('C02', 'bad', L2, '	ListenerList dismissed;\n	std::lock_guard<std::mutex> guard(m_mtxListeners);\n', '	std::lock_guard<std::mutex> guard(m_mtxListeners);\n	ListenerList dismissed;\n')
V('C02 C06 C07', 'same', L2, PUSH, 'if(!detached) return false; dismissed.push_back(listener);')
CLEAN = '''	m_activeListeners.erase(
			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
					[&dismissed](auto& listener) {
						bool detached = listener->isDetached();
						if(detached) { dismissed.push_back(listener); }
						return detached; }),
			m_activeListeners.end());
'''
LOOP = '''	for(auto it = m_activeListeners.begin(); it != m_activeListeners.end(); ) {
		if((*it)->isDetached()) { %s; it = m_activeListeners.erase(it); }
		else { ++it; }
	}
'''
V('C02 C06 C07', 'same', L2, CLEAN, LOOP % 'dismissed.push_back(*it)')
V('C02 C06 C07', 'same', L2, CLEAN, LOOP % 'dismissed.push_back(std::move(*it))')
V('C02', 'bad', L2, CLEAN, LOOP % 'auto keep = *it')
V('C02 C06 C07', 'same', L2, CLEAN, '	ListenerList kept;\n	for(auto& l: m_activeListeners) { if(!l->isDetached()) kept.push_back(l); }\n	dismissed.swap(m_activeListeners);\n	m_activeListeners.swap(kept);\n')
V('C02', 'bad', L2, CLEAN, '	ListenerList kept;\n	for(auto& l: m_activeListeners) { if(!l->isDetached()) kept.push_back(l); }\n	m_activeListeners.swap(kept);\n')
# ---------------------------------------------------------------- unlocking a free recursive futex
FX = 'include/falcon/futex.h'
V('C21', 'bad', FX, 'if(m_count > 0 && --m_count == 0)', 'if(--m_count == 0)')
V('C21', 'bad', FX, 'if(m_count > 0 && --m_count == 0)', 'if(m_count >= 0 && --m_count == 0)')
V('C21', 'same', FX, 'if(m_count > 0 && --m_count == 0)', 'if(m_count != 0 && m_count-- == 1)')
# ---------------------------------------------------------------- the copy of an assigned source text
CD = 'engine/code.cpp'
V('C28', 'bad', CD, '	std::swap(m_source, copy.m_source);\n', '')
V('C28', 'bad', CD, 'm_source(std::move(other.m_source)),', 'm_source(""),')
# ---------------------------------------------------------------- kinds of values
EN = 'include/falcon/engine/'
V('C44', 'bad', EN + 'inthandler.h', '{return 0LL;}', '{return 0L;}')
V('C44', 'bad', EN + 'inthandler.h', '{return 0LL;}', '{return false;}')
V('C44', 'bad', EN + 'floathandler.h', '{return 0.0;}', '{return 0.0f;}')
V('C44', 'bad', EN + 'floathandler.h', '{return 0.0;}', '{return 1.0;}')
V('C44', 'bad', EN + 'flathandler.h', 'isFlat() const noexcept override{ return true; }', 'isFlat() const noexcept override{ return false; }')
V('C44', 'bad', EN + 'flathandler.h', 'isCopyFlat() const noexcept override{ return true; }', 'isCopyFlat() const noexcept override{ return false; }')
V('C44', 'bad', EN + 'deephandler.h', 'isFlat() const noexcept override { return false; }', 'isFlat() const noexcept override { return true; }')
V('C44', 'bad', EN + 'deepflatcopyhandler.h', 'return true;', 'return false;')
V('C44', 'bad', EN + 'deephandler.h', '{return new T;}', '{return nullptr;}')
V('C44', 'bad', EN + 'deephandler.h', 'delete reinterpret_cast<T *>(data.ptrValue);', '')
V('C44 C24', 'same', EN + 'deephandler.h', '{return new T;}', '{T* made = new T(); return ItemData(made);}')
V('C44 C25 C27', 'same', EN + 'inthandler.h', '{return 0LL;}', '{return ItemData(static_cast<int64>(0));}')
# ---------------------------------------------------------------- no second owner
V('C45', 'bad', EN + 'handler.h', 'virtual ~Handler() {}', '~Handler() {}')
V('C45', 'bad', 'include/falcon/logsystem.h', 'virtual ~Listener()', '~Listener()')
V('C45', 'bad', 'include/falcon/logger.h', 'AutoEnd(const AutoEnd&) = delete;', '')
V('C45', 'bad', 'include/falcon/singleton.h', 'Singleton(Singleton const&) = delete;', 'Singleton(Singleton const&) = default;')
V('C45', 'bad', 'include/falcon/fut/unittest.h', 'UnitTest& operator=(const UnitTest&) = delete;', '')
V('C45', 'same', 'include/falcon/futex.h', 'RFutex(RFutex&& )= delete;', 'RFutex& operator=(const RFutex&)= delete;')

# ---- the state that a test case leaves on the streams (C31)
V('C31','bad',TCF,'   std::cout.copyfmt(p->outFormat);\n','')
V('C31','bad',TCF,'   std::cerr.copyfmt(p->errFormat);\n','')
V('C31','bad',TCF,'   std::cerr.copyfmt(p->errFormat);\n','   std::cerr.copyfmt(p->outFormat);\n')
V('C31','bad',TCF,'   std::cout.clear();\n','')
V('C31','bad',TCF,'   std::cout.copyfmt(p->outFormat);\n','   std::cout.flags(p->outFormat.flags());\n')
V('C31','bad',TCF,'   p->outFormat.copyfmt(std::cout);\n','')
V('C31','bad',TCF,'   std::cout.clear();\n   std::cout.copyfmt(p->outFormat);\n   std::cerr.clear();\n   std::cerr.copyfmt(p->errFormat);\n','   if(p->status != ERROR) {\n      std::cout.clear();\n      std::cout.copyfmt(p->outFormat);\n      std::cerr.clear();\n      std::cerr.copyfmt(p->errFormat);\n   }\n')
V('C31 C30 C36','same',TCF,'   std::cout.clear();\n   std::cout.copyfmt(p->outFormat);\n   std::cerr.clear();\n   std::cerr.copyfmt(p->errFormat);\n','   auto reset = [](std::ostream& out, const std::ios& format) {\n      out.clear();\n      out.copyfmt(format);\n   };\n   reset(std::cout, p->outFormat);\n   reset(std::cerr, p->errFormat);\n')
V('C31 C30 C36','same',TCF,'   std::cout.clear();\n','   std::cout.clear(std::ios_base::goodbit);\n')

# ---- UTF-8, white space in the XML report (C32); life of test cases (C39); output in TearDown() (C36); names of a status (C30)
V('C32','bad',UTF,"      case '\\r': result += \"&#13;\"; break;\n",'')
V('C32','bad',UTF,"      case '\\n': result += \"&#10;\"; break;\n",'')
V('C32','bad',UTF,'code < 0x800','code < 0x80')
V('C32','bad',UTF,'code <= 0xDFFF;','code < 0xDFFF && code != 0xD800;')
V('C32','bad',UTF,'size > text.size() - pos','size > text.size()')
V('C32','bad',UTF,'code > 0x10FFFF ?','code > 0x1FFFFF ?')
V('C32','bad',UTF,'first < 0xC2','first < 0xC0')
V('C32','bad',UTF,'(next & 0xC0) != 0x80','(next & 0x80) != 0x80')
V('C32','bad',UTF,'      std::cerr << "Cannot save XML report to " << p->xmlReport;\n','')
V('C32','same',UTF,'   for(std::string::size_type pos = 0; pos < text.size();) {\n      const std::string::size_type size = xmlCharSize(text, pos);','   std::string::size_type size = 0;\n   for(std::string::size_type pos = 0; pos < text.length(); ) {\n      size = xmlCharSize(text, pos);')
V('C32','same',UTF,"      if((next & 0xC0) != 0x80) {","      if(next < 0x80 || next > 0xBF) {")
V('C32','same',UTF,"      default: result.append(text, pos, size);","      default: result += text.substr(pos, size);")
V('C39','bad',UTF,'      testIter->init();\n','')
V('C39','bad',UTF,'      testIter->destroy();\n','')
V('C39','bad',UTF,'      status = performUnitTests();\n      destroy();','      destroy();\n      status = performUnitTests();')
V('C36','bad',UTF,'(p->verbosity >= REPORT_STDERR ||','(p->verbosity > REPORT_STDERR ||')
V('C30','bad',TCF,'case FAIL: return "FAIL";','case FAIL: return "ERROR";')if 0 else None
