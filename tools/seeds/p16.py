import os
import runpy
HERE = os.path.dirname(__file__)
SETUP = runpy.run_path(os.path.join(HERE, "common.py"))["SETUP"]
BAYES = runpy.run_path(os.path.join(HERE, "p14_34.py"))["BAYES"]
SEEDS = [
dict(id="P16-1", prop="P16", edits=[("oa/plugins/razor2.py",
'''        try:
            my_timer.start()
            proc.communicate(input=str.encode(msg.raw_msg))
        finally:
            my_timer.cancel()
            end_process(proc)

        if proc''', '''        my_timer.start()
        try:
            proc.communicate(input=str.encode(msg.raw_msg))
        except (IOError, OSError):
            self.ctxt.log.warning("Unable to communicate to razor-check")
        my_timer.cancel()
        end_process(proc)

        if proc''')],
 demo=SETUP + '''
import subprocess, threading
import oa.plugins.razor2 as razor
events = []


class Proc(object):
    returncode = None
    def __init__(self, *a, **k): events.append("proc")
    def communicate(self, input=None): raise ValueError("broken")
    def poll(self): return self.returncode
    def kill(self): events.append("killed"); self.returncode = -9
    terminate = kill
    def wait(self, timeout=None): return self.returncode


class Timer(object):
    def __init__(self, *a, **k): pass
    def start(self): events.append("start")
    def cancel(self): events.append("cancel")


class Log(object):
    def debug(self, *a): pass
    warning = error = info = warn = debug


class Ctxt(object):
    log = Log()


class Razor(razor.Razor2Plugin):
    ctxt = Ctxt()
    def __init__(self): pass
    def __getitem__(self, k): return self.options[k][1]
    def get_local(self, m, k): raise KeyError(k)
    def set_local(self, m, k, v): pass


class Msg(object):
    raw_msg = "x"


razor.subprocess.Popen, razor.threading.Timer = Proc, Timer
try:
    Razor().check_razor2(Msg())
except ValueError:
    pass
check("start" not in events or "cancel" in events, "the timer is left running")
check("killed" in events, "the process is left running")
''', needs="an error other than an I/O error while talking to razor-check (a message that cannot be encoded)",
 breaks="the razor-check process and the timer are left behind"),
dict(id="P16-2", prop="P16", edits=[("oa/plugins/bayes.py",
'''            orig = self.learn_caller_will_untie
            try:
                self.learn_caller_will_untie = True
                fatal = self.forget_message(msg, msgid)
            finally:
                # Reset the value post-forget() ...
                self.learn_caller_will_untie = orig
''', '''            orig = self.learn_caller_will_untie
            self.learn_caller_will_untie = True
            fatal = self.forget_message(msg, msgid)
            # Reset the value post-forget() ...
            self.learn_caller_will_untie = orig
''')],
 demo=BAYES + '''
tied = [0]
b.store.tie_db_writeable = lambda: tied.__setitem__(0, 1) or True
b.store.untie_db = lambda: tied.__setitem__(0, 0)
b.learn_message(m, True)
check(not tied[0], "left open after learning")
def broken(m):
    raise RuntimeError("database gone")
works, b.store.seen_delete = b.store.seen_delete, broken
try:
    b.learn_message(m, False)
except RuntimeError:
    pass
b.store.seen_delete = works
m.msgid = "<3@x>"
b.learn_message(m, True)
check(not tied[0], "the database stays open for good")
''', needs="a database error while a message is relearned in the other class, then another learned message",
 breaks="the database connection is never closed again"),
dict(id="P16-4", prop="P16", edits=[("oa/plugins/bayes.py",
'''        if not self.store.tie_db_readonly():
            return False

        ns, nn = self.store.nspam_nham_get()
''', '''        caller_untie, self.learn_caller_will_untie = \\
            self.learn_caller_will_untie, False
        if not self.store.tie_db_readonly():
            self.learn_caller_will_untie = caller_untie
            return False

        ns, nn = self.store.nspam_nham_get()
        self.learn_caller_will_untie = caller_untie
'''), ("oa/plugins/bayes.py", '''            # If our caller won't untie the db, we need to do it.
            if not caller_untie:
                self.store.untie_db()

    def _scan_trapped''', '''            # If our caller won't untie the db, we need to do it.
            if not self.learn_caller_will_untie and self.get_local(
                    msg, "bayes_nspam"):
                self.store.untie_db()

    def _scan_trapped''')],
 demo=BAYES + '''
tied = [0]
loc = {}
b.values = dict(b.values, use_learner=True, bayes_min_spam_num=0, bayes_min_ham_num=0)
b.ignore_message = lambda msg: False
b.get_local = lambda msg, k: loc.get(k)
b.set_local = lambda msg, k, v: loc.__setitem__(k, v)
b.store.tie_db_readonly = lambda: tied.__setitem__(0, 1) or True
b.store.untie_db = lambda: tied.__setitem__(0, 0)
b.store.nspam_nham_get = lambda: (5, 5)
b.store.tok_get_all = lambda tokens: []
b._compute_prob_for_all_tokens = lambda *a: []
b.scan(m)
check(not tied[0], "the database is left open")
''', needs="a scan of a message with no known token", breaks="the database stays open after a scan without a result"),
]
