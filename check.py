#!/usr/bin/env python3
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(100000)


def main():
    prop = sys.argv[1]
    import common
    try:
        if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10'):
            import check_a
            check_a.main(prop)
        elif prop in ('C07', 'C08', 'C09'):
            import check_b
            check_b.main(prop)
        elif prop == 'C12':
            import check_b
            check_b.main12()
        elif prop == 'C11':
            import check_c
            check_c.main11()
        elif prop == 'C13':
            import check_c
            check_c.main13()
        elif prop == 'C14':
            import check_d
            check_d.main14()
        elif prop == 'C17':
            import check_d
            check_d.main17()
        elif prop == 'C15':
            import check_d
            check_d.main15()
        elif prop == 'C16':
            import check_a
            check_a.main16()
        else:
            print('no check for', prop)
            sys.exit(2)
    except common.CheckError as e:
        print('ERROR', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
