"""Rewrites the `fixed` list of known_findings.json from /repo's fix: commits."""
import json, os, subprocess, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('DateTime (formatted|FormatString)|TimeSpan (fraction|TryParse)', 'P20'), ('integer parsing|floating-point parsing|UInt64 parsing|TryParse of integers', 'P09'), ('Math::|integer Divide', 'P11'), ('DoubleValue MaxValue', 'P12'), ('Math::(FusedMultiplyAdd|ILogB|Divide)', 'P12'), ('Array (range check|::Copy)|Array::Copy', 'P03'), ('Array (accepted|refused)', 'P01'),
       ('Array destructor', 'P01'), ('time zone|daylight|Daylight', 'P07'), ('Buffer', 'P04'), ('BitConverter', 'P05'), ('DateTime', 'P07'), ('TimeSpan', 'P08'), ('Parse', 'P09'), ('Equals|CompareTo|Compare of', 'P10'), ('Replace', 'P16'),
       ('FormatString|formatting|Format|CopyChars', 'P20'), ('StringBuilder', 'P15'), ('CharEnumerator', 'P17'), ('llocator|operator new', 'P18'), ('CharValue|Char::', 'P19'),
       ('String::(IndexOf|LastIndexOf|Compare|CompareTo|Contains)|StartsWith|String::CompareTo', 'P13'), ('String', 'P14')]
OVER = {}   # subject -> property, where the patterns are wrong
OVER['fix: String::CompareTo(Object) always returned 0'] = 'P13'
OVER['fix: FormatString wrote the terminator one past the buffer'] = 'P14'
OVER['fix: Math::FusedMultiplyAdd rounded the product'] = 'P12'
OVER['fix: Math::ILogB converted NaN and infinity to Int32'] = 'P12'
OVER['fix: DateTime ignored the time of day for a negative hour'] = 'P06'
OVER['fix: DateTime accepted 1000 milliseconds'] = 'P06'
OVER['fix: Math::Divide(Double) by zero ignored the signs and NaN dividends'] = 'P12'
OVER['fix: String::Compare crashed on null and read outside the strings'] = 'P13'
OVER['fix: LastIndexOf of a character raised the wrong exception for an invalid window'] = 'P13'
OVER['fix: Array::GetLength accepted dimensions that do not exist'] = 'P01'


def main():
    p = HERE + '/known_findings.json'
    k = json.load(open(p))
    fx = []
    for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
        h, s = line.split(' ', 1)
        m = re.search(r'\[(P\d\d)\]', s)
        if not s.startswith('fix:'):
            continue
        pid = OVER.get(s) or next((q for r, q in MAP if re.search(r, s)), None)
        assert pid, s
        fx.append('fixed: property=%s %s %s' % (pid, h, s[5:]))
    k['fixed'] = fx
    json.dump(k, open(p, 'w'), indent=1)
    print('\n'.join(fx))


if __name__ == '__main__':
    main()
