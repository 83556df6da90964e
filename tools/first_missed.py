"""Seeded bugs that the checks missed at first: the check was strengthened for each of them."""
MISSED = dict((n, 'yes') for n in '''h03-six h07-fetchmany h07-none-results h10-big-batches h11-large-edges h12-long-batches
    h12-uri h13-no-waiting h14-chunks h15-timestamp-range h16-shared-set h19-hub-type h20-leftover h22-root-stop
    h23-permutation-space h24-known-texts k01-deep s03-bare s05-long t02-first-page
    s06-pool s06-thousand s05-ten-thousand k07-hundred n01-many n02-fifty k06-long k03-wide k02-many h19-four h23-pool
    h16-batch h11-portions h21-big-answer h21-sorted h20-portions r02-portions h13-goes-on h19-seed-hubs h10-inner'''.split())
MISSED.update({
    'b01-chunks': 'yes: all the links of a source with more than a thousand facts are compared',
    'h07-one-map': 'yes: functions that keep the maps were added',
    'h17-periodic': 'yes: a thousand operations of each kind, each of them measured',
    'h18-depth': 'yes: ego networks of up to fourteen steps were added',
    'h19-edge-hubs': 'yes: hubs that are edges, numbers and URLs were added',
    'k05-many': 'yes: sentences with up to a thousand combinations were added',
    'k07-id-memo': 'yes: sentences that differ only in attributes of words, each compared with a process of its own',
    'n01-long-text': 'yes: texts of up to a million characters were added',
    'n03-long-lines': 'yes: long words were added',
    's06-same-second': 'yes: several processes were added',
    't01-empty-options': 'yes: empty options, and options with special characters, were added',
    't01-home': 'yes: names that a shell would expand were added',
})
