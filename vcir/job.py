"""one verification job in its own process: compile the harness with the repository's sources to IR, execute, prove"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)
def go():
    import vc
    j = json.loads(sys.argv[1]); tmp = sys.argv[2]; out = sys.argv[3]; to = float(sys.argv[4])
    ir = os.path.join(tmp, j['key'] + '.ll')
    try:
        vc.compile_ir(j['path'], j['defs'], ir)
        r = vc.run_harness(ir, 'vc_harness_' + j['fn'], vc.harness_overrides(j['path']), check_bounds=j['bounds'], check_race=j['race'], timeout=j.get('timeout') or to, exec_limit=j.get('exec_limit') or 400, globals_init=j['ginit'])
        r['functions'] = sorted(r['functions'])
    except vc.BuildError as e: r = {'error': 'does not compile: ' + str(e)[-800:], 'obligations': []}
    except MemoryError: r = {'error': 'memory limit', 'obligations': []}
    except Exception as e:
        import traceback; r = {'error': 'verifier error: %s' % traceback.format_exc()[-600:], 'obligations': []}
    try: os.remove(ir)
    except OSError: pass
    def dflt(x): return str(x)
    with open(out + '.t', 'w') as f: json.dump(r, f, default=dflt)
    os.rename(out + '.t', out)
    os._exit(0)
t = threading.Thread(target=go); t.start(); t.join()
