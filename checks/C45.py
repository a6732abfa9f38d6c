#!/usr/bin/env python3
"""Ownership that the types enforce: witnesses that must not, or must, compile."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from concurrent.futures import ThreadPoolExecutor
from check import *
import build

PRE = '''#include <falcon/futex.h>
#include <falcon/logger.h>
#include <falcon/logstream.h>
#include <falcon/logproxy.h>
#include <falcon/singleton.h>
#include <falcon/engine/pagedstack.h>
#include <falcon/engine/item.h>
#include <falcon/engine/code.h>
#include <falcon/engine/deepflatcopyhandler.h>
#include <falcon/fut/fut.h>
#include <mutex>
#include <type_traits>
#include <utility>
namespace wit {
struct Own { int x; };
struct Quiet: public falcon::LogSystem::Listener { void onMessage(const falcon::LogSystem::Message&) override {} };
struct Case: public falcon::testing::TestCase { Case() {} void test() override {} };
template<typename T> T& any();
'''
F = 'src/include/falcon/'
# what it is, its type, the type that is used for the witness, file
UNIQUE = [('a futex', 'falcon::Futex<0>', F + 'futex.h'), ('a yielding futex', 'falcon::Futex<3>', F + 'futex.h'), ('a recursive futex', 'falcon::RFutex', F + 'futex.h'), ('a log system', 'falcon::LogSystem', F + 'logsystem.h'),
          ('a listener', 'wit::Quiet', F + 'logsystem.h'), ('a stream listener', 'falcon::LogStreamListener', F + 'logstream.h'), ('a proxy listener', 'falcon::LogProxyListener', F + 'logproxy.h'),
          ('a logger', 'falcon::Logger', F + 'logger.h'), ('a log statement', 'falcon::Logger::AutoEnd', F + 'logger.h'), ('a log block', 'falcon::Logger::BlockEnd', F + 'logger.h'),
          ('a singleton', 'falcon::Singleton<wit::Own>', F + 'singleton.h'), ('a unit test', 'falcon::testing::UnitTest', F + 'fut/unittest.h'), ('a test case', 'wit::Case', F + 'fut/testcase.h')]
VALUE = [('an item', 'falcon::Item', F + 'engine/item.h'), ('a source text', 'falcon::Code', F + 'engine/code.h'), ('a stack', 'falcon::PagedStack<int>', F + 'engine/pagedstack.h')]
BASE = [('a listener', 'falcon::LogSystem::Listener', F + 'logsystem.h'), ('a stream listener', 'falcon::LogStreamListener', F + 'logstream.h'), ('a kind of values', 'falcon::Handler', F + 'engine/handler.h'),
        ('a flat kind of values', 'falcon::FlatHandler', F + 'engine/flathandler.h'), ('a deep kind of values', 'falcon::DeepHandler<wit::Own>', F + 'engine/deephandler.h'),
        ('a test case', 'falcon::testing::TestCase', F + 'fut/testcase.h')]

def compiles(src, *opts):
    r = subprocess.run(['clang++'] + build.flags() + (list(opts) or ['-fsyntax-only']) + ['-w', '-x', 'c++', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode == 0, r.stderr

def body(c):
    jobs = []       # (file, what, source, must compile, key, message)
    for what, t, f in UNIQUE:
        jobs.append((f, t, 'void w(%s& a) { (void) sizeof(a); }' % t, True, 'type', '%s cannot be named' % what))
        for how, s in (('copied', '%s b(a);'), ('moved to another', '%s b(std::move(a));'), ('copied from a constant one', '%s b(const_cast<const %s&>(a));')):
            s = s % ((t,) * s.count('%s'))
            jobs.append((f, t, 'void w(%s& a) { %s (void) b; }' % (t, s), False, 'copy', '%s can be %s: two objects then own, release or send the same thing' % (what, how)))
        for how, s in (('assigned', 'a = b;'), ('assigned by move', 'a = std::move(b);'), ('assigned from a constant one', 'a = const_cast<const %s&>(b);' % t)):
            jobs.append((f, t, 'void w(%s& a, %s& b) { %s }' % (t, t, s), False, 'assign', '%s can be %s: two objects then own, release or send the same thing' % (what, how)))
    for what, t, f in VALUE:
        jobs.append((f, t, 'void w(%s& a) { %s b(a); %s d(const_cast<const %s&>(b)); a = d; a = std::move(b); }' % (t, t, t, t), True, 'value', '%s cannot be copied and assigned' % what))
    for what, t, f in BASE:
        jobs.append((f, t, 'static_assert(std::has_virtual_destructor<%s>::value, "");' % t, True, 'destroy', '%s has no virtual destructor: deleting one through its base leaves what it owns behind' % what))
    for what, t, f in UNIQUE + VALUE + BASE:
        jobs.append((f, t, 'static_assert(!std::is_destructible<%s>::value || std::is_nothrow_destructible<%s>::value, "");' % (t, t), True, 'nothrow', 'the destructor of %s may throw' % what))
    # the headers once, then each witness on top of them
    pch = os.path.join(build.tmpdir(), 'all.pch')
    with open(pch[:-4] + '.h', 'w') as o:
        o.write(PRE + '}\n')
    r = subprocess.run(['clang++'] + build.flags() + ['-w', '-x', 'c++-header', pch[:-4] + '.h', '-o', pch], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Broken('the headers do not compile together: %s' % r.stderr[:300])
    if not compiles('int x;\n', '-fsyntax-only', '-include-pch', pch)[0] or compiles('int x = y;\n', '-fsyntax-only', '-include-pch', pch)[0]:
        raise Broken('the compiler does not tell witnesses apart')
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compiles('namespace wit {\n' + j[2] + '\n}\n', '-fsyntax-only', '-include-pch', pch), jobs))
    gone = {j[1] for j, (ok, err) in zip(jobs, res) if j[4] == 'type' and not ok}
    for t in gone:
        if '::Logger::' not in t:
            raise Broken('%s does not exist' % t)
    for (f, t, s, must, key, msg), (ok, err) in zip(jobs, res):
        if t in gone:
            continue        # a helper of the log macros that is not there (any more)
        c.ob(ok == must, key, msg + (' (%s)' % s), (f, t))
    c.extra['witnesses'] = {'must not compile': sum(not j[3] for j in jobs), 'must compile': sum(j[3] for j in jobs)}
    for j in jobs[:8]:
        c.sample('%s %s' % ('must compile:' if j[3] else 'must not compile:', j[2]))

main(Check('C45', 'witness programs for each type: those that copy, move or assign an object with an identity are rejected by the compiler, those that copy values and those that state that destructors are virtual '
           'where objects are deleted through their base, and do not throw, are accepted', [], 80), body)
