import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

WHERE = dict(C01='checks_paint', C02='checks_paint', C03='checks_paint', C04='checks_paint', C05='checks_paint', C13='checks_paint',
             C14='checks_clear', C15='checks_clear',
             C16='checks_small', C17='checks_small', C19='checks_demo', C27='checks_hash', C28='checks_gentext', C29='checks_gentext',
             C10='checks_seq', C11='checks_seq', C12='checks_seq', C18='checks_cells',
             C24='checks_js', C20='checks_gen', C21='checks_gen', C22='checks_gen', C23='checks_gen', C26='checks_gen',
             C06='checks_chars', C07='checks_chars', C08='checks_chars', C09='checks_chars')


def run(pid):
    m = __import__(WHERE[pid])
    m.main(pid)


if __name__ == '__main__':
    try:
        run(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('%s: check failed to run' % sys.argv[1])
        sys.exit(2)
