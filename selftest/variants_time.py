T, MK, TC, UT = 'include/falcon/fut/timelapse.h', 'fut/marktime-unix.c++', 'fut/testcase.cpp', 'fut/unittest.cpp'
V('C40', 'bad', T, 'return m_begin > m_end\n', 'return m_begin >= m_end\n')
V('C40', 'bad', T, '? m_end - m_begin + MSECS_IN_A_DAY', '? m_begin - m_end')
V('C40', 'bad', T, '60*60*24*1000', '60*60*12*1000')
V('C40', 'bad', T, '''return m_begin > m_end
            ? m_end - m_begin + MSECS_IN_A_DAY
            : m_end - m_begin;''', 'return m_end - m_begin;')
V('C40', 'bad', T, 'int64 markEnd() { markTime(m_end)', 'int64 markEnd() { markTime(m_begin)')
V('C40', 'bad', T, 'markTime(m_begin); return m_begin;', 'markTime(m_begin); m_end = 0; return m_begin;')
V('C40', 'bad', T, 'int64 now;\n      markTime(now);', 'int64 now = m_end;')
V('C40', 'bad', T, 'return m_begin > now\n', 'return m_end > now\n')
V('C40', 'same', T, '''return m_begin > m_end
            ? m_end - m_begin + MSECS_IN_A_DAY
            : m_end - m_begin;''', '''int64 diff = m_end - m_begin;
      if(diff < 0) diff += MSECS_IN_A_DAY;
      return diff;''')
V('C40', 'same', T, '''return m_begin > now
                  ? now - m_begin + MSECS_IN_A_DAY
                  : now - m_begin;''', '''TimeLapse l(*this); l.m_end = now; return l.elapsed();''')
V('C40', 'bad', MK, 'tv.tv_sec * 1000', 'tv.tv_sec * 100')
V('C40', 'bad', MK, 'currentMillisecs += (tv.tv_usec / 1000)', 'currentMillisecs += (tv.tv_usec / 100)')
V('C40', 'bad', MK, 'currentMillisecs += (tv.tv_usec / 1000)', 'currentMillisecs += tv.tv_usec % 1000')
V('C40', 'bad', MK, '(tv.tv_sec * 1000)', '(int(tv.tv_sec) % 86400 * 1000)')
V('C40', 'bad', MK, 'throw std::runtime_error("gettimeofday failed");', 'return;')
V('C40', 'bad', MK, 'std::chrono::milliseconds(mseconds)', 'std::chrono::microseconds(mseconds)')
V('C40', 'bad', MK, 'std::chrono::milliseconds(mseconds)', 'std::chrono::seconds(mseconds/1000)')
V('C40', 'bad', MK, 'std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));', 'if(mseconds < 1000) std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));')
V('C40', 'same', MK, 'std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));', 'std::this_thread::sleep_for(std::chrono::microseconds(mseconds * 1000));')
V('C40', 'same', MK, 'std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));', 'if(mseconds > 0) std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));')
V('C40', 'same', MK, '''   currentMillisecs = (tv.tv_sec * 1000);
   currentMillisecs += (tv.tv_usec / 1000);''', '''   const int64 micros = static_cast<int64>(tv.tv_sec) * 1000000 + tv.tv_usec;
   currentMillisecs = micros / 1000;''')
V('C40', 'same', MK, '''   struct timeval tv;
   if(gettimeofday(&tv, NULL)) {
      throw std::runtime_error("gettimeofday failed");
   }
   currentMillisecs = (tv.tv_sec * 1000);
   currentMillisecs += (tv.tv_usec / 1000);''', '''   currentMillisecs = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count();''')
V('C40', 'same', MK, '''   struct timeval tv;
   if(gettimeofday(&tv, NULL)) {
      throw std::runtime_error("gettimeofday failed");
   }
   currentMillisecs = (tv.tv_sec * 1000);
   currentMillisecs += (tv.tv_usec / 1000);''', '''   struct timespec ts;
   if(clock_gettime(CLOCK_REALTIME, &ts) != 0) {
      throw std::runtime_error("gettimeofday failed");
   }
   currentMillisecs = int64(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;''')
V('C40', 'bad', TC, '      catch(...) {\n         p->lapse.markEnd();\n', '      catch(...) {\n')
V('C40', 'bad', TC, '      p->lapse.markBegin();\n', '      if(p->lapse.begin() == 0) p->lapse.markBegin();\n')
V('C40', 'bad', TC, '      p->lapse.markEnd();\n\n', '      if(p->status == NONE) p->lapse.markEnd();\n\n')
V('C40', 'bad', TC, 'return p->lapse.elapsedNow();', 'return p->lapse.elapsed();')
V('C40', 'same', TC, '      SetUp();\n\n      p->lapse.markBegin();\n', '      p->lapse.markBegin();\n      SetUp();\n\n')
V('C40', 'bad', UT, '      component.lapse.markBegin();\n', '')
V('C40', 'bad', UT, '      component.lapse.markEnd();\n   }\n', '   }\n   for(auto& it: p->componentToPerform) it.second.lapse.markEnd();\n')
V('C40', 'bad', UT, '   p->lapse.markBegin();\n   for(auto& itcat', '   for(auto& itcat')
V('C40', 'bad', UT, '<< "time=\\"" << component.lapse.elapsed() / 1000.0', '<< "time=\\"" << p->lapse.elapsed() / 1000.0')
V('C40', 'bad', UT, '<< "time=\\"" << tcasep->elapsedTime() / 1000.0', '<< "time=\\"" << tcasep->elapsedTimeNow() / 1000.0')
V('C40', 'bad', UT, '<< "time=\\"" << tcasep->elapsedTime() / 1000.0', '<< "time=\\"" << tcasep->elapsedTime() / 1000')
V('C40', 'bad', UT, 'tc->elapsedTime()/1000.0', 'tc->elapsedTime()/1024.0')
V('C40', 'same', UT, '<< "time=\\"" << tcasep->elapsedTime() / 1000.0', '<< "time=\\"" << tcasep->elapsedTime() * 0.001')
V('C40', 'bad', UT, 'int64 UnitTest::elapsedTime() const\n{\n   return p->lapse.elapsed();', 'int64 UnitTest::elapsedTime() const\n{\n   return p->lapse.elapsed() / 1000;')
V('C40', 'bad', UT, 'int64 UnitTest::elapsedTime() const\n{\n   return p->lapse.elapsed();', 'int64 UnitTest::elapsedTime() const\n{\n   return p->lapse.elapsedNow();')
