"""Writes /verif/known_findings.json: the repaired defects (hash -> property; what failed is the subject of the commit)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = '''a59bf7f C14|be1d00c C14|5edfc65 C12|8273a43 C12|776b00b C12|f37bea7 C11|00eda0f C08|c203aba C07|8732e7c C06|324ff7d C07|29f786f C07|40c9128 C13|8245ec2 C10|3d62abe C10|1c1b2e0 C20|6a5c98b C15|
964571b C09|974dab1 C17|6d15c96 C14|b9b249f C14|ab04974 C18|8527a8e C14|ef49f0e C16|288751a C01|e2252db C03|11f297d C06|e436dbb C05|4917482 C04|f6263b0 C04|405dca7 C04|851c598 C04|ed0d39c C04|f3d38cd C05|
c29d5aa C21|01bacb5 C22|46d98b6 C23|e32719e C23|353cb70 C23|dbbd2ba C23|d193e58 C23|08463ac C03|7ebd4e1 C03|e48ccb2 C02|53ba046 C04|79ef5de C12|d090b5b C12|5134be5 C12|d92e146 C11|68dd3ca C12|0f30252 C11|58d31a5 C14|fbf91b2 C14|
0998750 C20|56d33ec C12|421444e C12|fa5bec5 C12|31bf36a C12|12d2b2e C24|3c8648a C24|0530ad7 C12|fa9f7c9 C12|cdccac9 C04|
12bd8e1 C11|da65546 C11|694d829 C11|d937a03 C07|bd16def C22|2c0a362 C04|a718219 C12'''
if __name__ == '__main__':
    fixed = []
    for l in FIX.replace('\n', '').split('|'):
        h, p = l.split()
        s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], text=True).strip()
        assert s.startswith('fix: ')
        fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
    n = int(subprocess.check_output("git -C /repo log --format=%s | grep -c ^fix:", shell=True))
    assert n == len(fixed), (n, len(fixed))
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        json.dump({'findings': [], 'fixed': fixed}, f, indent=1)
        f.write('\n')
