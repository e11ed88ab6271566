import json, sys
print('ARGV', json.dumps([[ord(c) for c in a] for a in sys.argv[1:]]))
