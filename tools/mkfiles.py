"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # pylint: disable=wrong-import-position

KEYS = ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps({k: p[k] for k in KEYS}) + '\n')
  man = {
      'version': 1,
      'setup_cmd': '/opt/venv/bin/python -B sim/driver.py selftest',
      'hooks': {'guard': 'TFMOT_SIM', 'enable': 'the driver exports '
                'TFMOT_SIM=1 to its workers; no hook in /repo was needed, '
                'so the guard changes nothing there', 'source_commits': []},
      'checks': [dict(property=p['id'],
                      quick_cmd='./check ' + p['id'],
                      thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                      technique=p['technique'], level='exploration',
                      level_note=p['note']) for p in props.PROPS],
      'not_applicable': [dict(property=p['id'], reason=p['na'])
                         for p in props.NOT_APPLICABLE],
  }
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


main()
