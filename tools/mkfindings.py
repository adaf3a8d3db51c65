""" Writes known_findings.txt: all genuine defects found were repaired, a fixed entry suppresses nothing. """
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'dbf6089'
# commit -> property
OF = {'744e164':'C17','8839290':'C17','e029b61':'C21','e9aba9c':'C20','c68f688':'C19','c07577d':'C07','160f04c':'C26','72a5357':'C27','c7db615':'C16','99256c5':'C21','3b3e60d':'C17','6f93528':'C16','533fa5a':'C29','7a5e966':'C09','0e61d84':'C21','98d43e7':'C27','03dc29d':'C26','646db56':'C23','031b302':'C22','5d25de0':'C22','7f94ec5':'C22','0716048':'C22',
'd28673d':'C21','b801ce3':'C21','3f513e2':'C15','cb9e437':'C17','fb254bb':'C17','e59d0d0':'C30','6b7488f':'C18','cb7bab2':'C20','4d074cd':'C20',
'17c109f':'C15','326d1d5':'C21','5fd4dbc':'C28','56eab68':'C18','fbd17d9':'C21','7e735f4':'C15','f41f75e':'C15','76ee747':'C09','ff5577d':'C09',
'0fcaaf8':'C10','d45f6f4':'C19','7eb6b82':'C19','532fa5b':'C19','fe109f9':'C19','1af34d9':'C18','637157d':'C24','cd399cf':'C28','b2b5348':'C20',
'2ae2bd2':'C04','1deacf5':'C29','0d2cb8d':'C01','e4a6b93':'C01','a3ca217':'C01','1c56ed2':'C04','0cc78a8':'C03','eb433a0':'C03','476da98':'C13',
'7e8027d':'C07','699ee99':'C11','50f1357':'C12','5588177':'C04','fbc2a3c':'C29','6e1d62a':'C05','454fa0e':'C14','4f7b309':'C14','8bbd632':'C14',
'013cd87':'C14','6c46705':'C14','51ffab6':'C25','0cb2ab6':'C12'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], capture_output = True, text = True, check = True).stdout
out = ['# Genuine defects of robehickman/bversion found with this machinery. All of them were repaired by a "fix:" commit in /repo,',
       '# so nothing is suppressed: "fixed: property=<id> <commit> <what failed>".']
for line in log.strip().split('\n'):
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), s
    out.append('fixed: property=%s %s %s' % (OF[h], h, s[5:]))
open(os.path.join(here, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
print(len(out) - 2)
