#include <falcon/logger.h>
namespace wit {
using namespace falcon;
struct Piece {};
std::ostream& operator<<(std::ostream& os, const Piece& p);
const Piece& piece(int n);
void body(int n);

// inline members
void w_own(LogStreamListener& l, std::unique_ptr<std::ostream>& o) { l.own(o); }
void w_share(LogStreamListener& l, std::shared_ptr<std::ostream> o) { l.share(o); }
void w_writeOn(LogStreamListener& l, std::ostream* o) { l.writeOn(o); }
void w_lsl_ctor() { LogStreamListener l; }
void w_category_set(LogSystem::Listener& l, const std::string& s) { l.category(s); }
std::string w_category_get(const LogSystem::Listener& l) { return l.category(); }
void w_enable(LogSystem::Listener& l, bool m) { l.LogSystem::Listener::enable(m); }
void w_detach(LogSystem::Listener& l) { l.LogSystem::Listener::detach(); }
void w_level_set(LogSystem::Listener& l, LogSystem::LEVEL v) { l.level(v); }
LogSystem::LEVEL w_level_get(const LogSystem::Listener& l) { return l.level(); }
bool w_isEnabled(const LogSystem::Listener& l) { return l.isEnabled(); }
bool w_isDetached(const LogSystem::Listener& l) { return l.isDetached(); }
void w_sys_level_set(LogSystem& l, LogSystem::LEVEL v) { l.level(v); }
LogSystem::LEVEL w_sys_level_get(const LogSystem& l) { return l.level(); }
void w_proxy_ctor(LogSystem::PListener o) { LogProxyListener p(o); }
void w_proxy_msg(LogProxyListener& p, const LogSystem::Message& m) { p.LogProxyListener::onMessage(m); }
void w_listener_ctor() { struct L: public LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} }; L l; }
Logger& w_instance() { return Logger::instance(); }
std::shared_ptr<LogStreamListener> w_default(const Logger& l) { return l.defaultListener(); }
void w_setCategory(Logger& l, const std::string& c) { l.setCategory(c); }
void w_setTempCategory(Logger& l, const std::string& c) { l.setTempCategory(c); }
const std::string& w_getCategory(Logger& l) { return l.getCategory(); }
void w_commit(Logger& l) { l.commit(); }
void w_setLevel(Logger& l, LOGLEVEL v) { l.setLevel(v); }
void w_setFile(Logger& l, const std::string& v) { l.setFile(v); }
void w_setLine(Logger& l, int v) { l.setLine(v); }
void w_compose(Logger& l, const Piece& p) { l << p; }

// anchors for member positions
void w_onMessage(LogSystem::Listener& l, const LogSystem::Message& m) { l.onMessage(m); }
void w_v_enable(LogSystem::Listener& l, bool m) { l.enable(m); }
void w_v_detach(LogSystem::Listener& l) { l.detach(); }
LogSystem* w_new_sys() { return new LogSystem(false); }
const std::string& f_file(const LogSystem::Message& m) { return m.m_file; }
const int& f_line(const LogSystem::Message& m) { return m.m_line; }
const LogSystem::LEVEL& f_level(const LogSystem::Message& m) { return m.m_level; }
const std::string& f_category(const LogSystem::Message& m) { return m.m_category; }
const std::string& f_message(const LogSystem::Message& m) { return m.m_message; }
const size_t& d_poolSize(const LogSystem::Diags& d) { return d.m_poolSize; }
const size_t& d_maxMsgQueueSize(const LogSystem::Diags& d) { return d.m_maxMsgQueueSize; }
const size_t& d_msgReceived(const LogSystem::Diags& d) { return d.m_msgReceived; }
const size_t& d_msgsCreated(const LogSystem::Diags& d) { return d.m_msgsCreated; }
const size_t& d_msgsDiscarded(const LogSystem::Diags& d) { return d.m_msgsDiscarded; }
const size_t& d_pendingListeners(const LogSystem::Diags& d) { return d.m_pendingListeners; }
const size_t& d_activeListeners(const LogSystem::Diags& d) { return d.m_activeListeners; }
const size_t& d_enabledListeners(const LogSystem::Diags& d) { return d.m_enabledListeners; }
int k_threshold() { return LogSystem::MESSAGE_POOL_THRESHOLD; }
Logger* w_new_logger() { return new Logger; }
void w_delete_logger(Logger* l) { delete l; }
void w_delete_lsl(LogStreamListener* l) { delete l; }

// statement forms; the level is a run-time value
void w_log1(LOGLEVEL lvl) { LOG(lvl) << piece(1); }
void w_log3(LOGLEVEL lvl) { LOG(lvl) << piece(1) << piece(2) << piece(3); }
void w_logcat(LOGLEVEL lvl, const std::string& c) { LOG(lvl) << LOG_CAT(c) << piece(1); }
void w_logcat2(LOGLEVEL lvl, const std::string& c) { LOG(lvl) << LOG_CAT(c) << piece(1) << piece(2); }
void w_block(LOGLEVEL lvl) { LOG_BLOCK(lvl) { body(1); LOGGER << piece(1) << piece(2); body(2); } }
void w_block_break(LOGLEVEL lvl, bool b) { LOG_BLOCK(lvl) { LOGGER << piece(1); if(b) break; LOGGER << piece(2); } }
void w_logcategory(const std::string& c) { LOG_CATEGORY(c); }
// the category filter helper, from a known state
void obs(int n, int sys, int dflt);
static Logger& fresh(LOGLEVEL sys, LOGLEVEL dl) { Logger& g = *new Logger; g.level(sys); g.defaultListener()->level(dl); return g; }
static void look(int n, Logger& g) { obs(n, g.level(), g.defaultListener()->level()); }
void w_filter(LOGLEVEL sys, LOGLEVEL dl, const std::string& c, LOGLEVEL l, LOGLEVEL sys2, LOGLEVEL dl2) { Logger& g = fresh(sys, dl); g.categoryFilter(c, l); look(1, g); g.clearFilter(); look(2, g); g.level(sys2); g.defaultListener()->level(dl2); g.clearFilter(); look(3, g); }
void w_filter2(LOGLEVEL sys, LOGLEVEL dl, const std::string& c, LOGLEVEL l, const std::string& c2, LOGLEVEL l2) { Logger& g = fresh(sys, dl); g.categoryFilter(c, l); look(1, g); g.categoryFilter(c2, l2); look(2, g); g.clearFilter(); look(3, g); }
void w_nofilter(LOGLEVEL sys, LOGLEVEL dl) { Logger& g = fresh(sys, dl); g.clearFilter(); look(1, g); }
void w_badfilter(LOGLEVEL sys, LOGLEVEL dl, const std::string& c, LOGLEVEL l) { Logger& g = fresh(sys, dl); try { g.categoryFilter(c, l); } catch(const LogSystem::InvalidCategory&) { look(1, g); } }
void w_badfilter2(LOGLEVEL sys, LOGLEVEL dl, const std::string& c, LOGLEVEL l, const std::string& c2, LOGLEVEL l2) { Logger& g = fresh(sys, dl); g.categoryFilter(c, l); try { g.categoryFilter(c2, l2); } catch(const LogSystem::InvalidCategory&) { look(1, g); g.clearFilter(); look(2, g); } }
void w_deffilter(LOGLEVEL sys, LOGLEVEL dl, const std::string& c) { Logger& g = fresh(sys, dl); g.categoryFilter(c); look(1, g); }
// named level forms
void w_crit() { LOG_CRIT << piece(1); }
void w_err() { LOG_ERR << piece(1); }
void w_warn() { LOG_WARN << piece(1); }
void w_info() { LOG_INFO << piece(1); }
void w_dbg() { LOG_DBG << piece(1); }
void w_trc() { LOG_TRC << piece(1); }
void w_bcrit() { LOG_BLOCK_CRIT { body(1); } }
void w_berr() { LOG_BLOCK_ERR { body(1); } }
void w_bwarn() { LOG_BLOCK_WARN { body(1); } }
void w_binfo() { LOG_BLOCK_INFO { body(1); } }
void w_bdbg() { LOG_BLOCK_DBG { body(1); } }
void w_btrc() { LOG_BLOCK_TRC { body(1); } }
void w_cond() { LOG(false ? ::falcon::LLCRIT : ::falcon::LLINFO) << piece(1); }
void w_bcond() { LOG_BLOCK(false ? ::falcon::LLCRIT : ::falcon::LLINFO) { body(1); } }
#ifndef NO_DANGLING
// control flow around the macros
void w_ifelse(bool a) { if(a) LOG_CATEGORY("x"); else body(9); }
#endif
}
