BOUND = {
 'C10': 'the loop is fed every sequence of up to 2 signals (thorough: 4); the lifecycle itself is loop-free.',
 'C11': 'one signal per kind for the loop\'s reasons; the lifecycle has none.',
 'C12': 'sequences of up to 2 signals (thorough: 3), each hook panicking at its call or at an await.',
 'C15': 'sequences of up to 3 signals (thorough: 4).',
 'C16': 'none: the abort may fall on any await of the loop.',
 'C17': 'sequences of up to 3 signals (thorough: 5).',
 'C22': 'none on items (the automaton\'s states repeat).',
 'C23': 'two links of any kind.',
 'C25': 'sequences of up to 2 signals (thorough: 3).',
 'C28': 'none on lengths (segments with intervals).',
 'C29': 'two entries and the name asked for; map operations are local to a key.',
 'C33': 'two commands followed by two network events of every kind.',
 'C36': 'two commands and two events for the matching of answers to callers.',
 'C37': 'none on byte strings; events carry unknown content.',
 'C38': 'two registered actors with two links each.',
 'C40': 'tables of up to 3 entries per kind (thorough: 4); the initialiser treats entries alike.',
 'C41': 'pools of 2 workers, two dispatches or one broadcast, workers gone at any point.',
 'C42': 'two subscriptions (thorough: three), two publications with an unsubscription in between.',
 'C43': 'two registrations per type, two publications with an unregistration in between.',
 'C44': 'two subscribers, two publications.',
 'C45': 'the item shapes of the fixture.',
 'C46': 'the item shapes of the fixture.',
 'C47': 'the item shapes of the fixture.',
 'C62': 'two consecutive choices among 2 and among 3 workers, with any loads; counts are those of the moment they are taken.',
}
WHY = {p['id']: p['why_tests_cant'] for p in P}
CAUGHT = {}
