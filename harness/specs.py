"""What each property's check runs, and what its evidence says."""

REFS = 'References are drawn from years 1400-9999 with month, leap day, year, calendar and hour boundaries weighted. '
PHRASE_RULE = ('Cases are generated from (seed, case number): a random reference date-time, a phrase of the property\'s grammar together with its expected '
               'components from an independent calendar model, random letter case, and neutral words and punctuation around it. ' + REFS +
               'Every case is judged (value, certainty and span of the single result, or that there is none). Distinct: different (text, reference).')
TRUST = ['the harness reads results through the library\'s public getters, toDate() and date()',
         'gcc 13 and libstdc++ of this sandbox; other standard libraries are not observed']


def one(main, scale=1.0, tscale=1.0):
    return lambda Run, thorough: [Run('main', 'plain', main, scale=scale, tscale=tscale)]


SPECS = {}
for i, scale in dict(C08=8, C09=8, C10=8, C11=6, C12=8, C13=8, C14=8, C15=8, C16=8, C17=5, C18=8, C24=4).items():
    SPECS[i] = dict(runs=one(i + '.cpp', scale, scale), rule=PHRASE_RULE, assumptions=TRUST)

SPECS['C07'] = dict(
    runs=one('C07.cpp', 4, 4), assumptions=TRUST, require={'results through a list': 1000},
    rule='Random sequences of 5-60 set, imply, read, copy, assign, swap and list operations on up to 6 components and 6 results; after every operation every '
         'object is read back and compared with a model. Distinct: different operation sequences of more than 8 operations.')
SPECS['C26'] = dict(
    runs=one('C26.cpp', 4, 4), assumptions=TRUST,
    rule='Random component combinations around and far outside the calendar, including values that fall inside it when cut to 8, 16 or 32 bits, as components and as results with and without '
         'an end; the library\'s own answer is compared with a calendar model. Distinct: different component combinations.',
    require={'only the end is not possible': 1000, 'not possible: year 16 bits': 100})
SPECS['C25'] = dict(
    runs=one('C25.cpp', 4, 4), assumptions=TRUST, require={'zones of a range': 1000},
    rule='Random component combinations (known, implied, absent time fields, hour 24, zone offsets, tags), rendered and converted twice, compared with '
         'a calendar model. Distinct: different component combinations.')



def fuzz(m, v, bins, seed, thorough, tmp, env):
    """C01 thorough: coverage-guided fuzzing, 8 processes on one corpus; every report is run again from its file"""
    import os, re, subprocess, time
    if not thorough:
        return
    binary = m.build_many([('fuzz', 'C01_fuzz.cpp')])[0]
    corpus, art = os.path.join(tmp, 'corpus'), os.path.join(tmp, 'artifacts')
    os.makedirs(corpus)
    os.makedirs(art)
    e = dict(os.environ, TZ='UTC', LC_ALL='C', **m.SAN_ENV['fuzz'])
    secs = int(os.environ.get('VERIF_FUZZ_SECONDS', '1200'))
    procs = []
    for w in range(m.NCPU):
        cmd = [binary, '-seed=%d' % (seed * 100 + w + 1), '-max_total_time=%d' % secs, '-max_len=308', '-timeout=90', '-rss_limit_mb=3000', '-reload=1',
               '-print_final_stats=1', '-artifact_prefix=%s/%d-' % (art, w), corpus]
        log = open(os.path.join(tmp, 'fuzz-%d.log' % w), 'wb')
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=e, cwd=tmp), log.name))
    end = time.time() + secs + 300
    for p, _ in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            v.notes.append('a fuzzing process did not end in time')
    n, cov = 0, 0
    for p, log in procs:
        with open(log, 'rb') as f:
            t = f.read().decode('utf-8', 'replace')
        k = re.search(r'stat::number_of_executed_units: (\d+)', t)
        n += int(k.group(1)) if k else 0
        c = re.findall(r'cov: (\d+)', t)
        cov = max([cov] + [int(x) for x in c[-1:]])
    v.counts['fuzzing: executions'] = n
    v.counts['fuzzing: edges covered'] = cov
    v.counts['fuzzing: corpus'] = len(os.listdir(corpus))
    v.evaluations += n
    keep = os.path.join(m.EVID, 'replay')
    for a in sorted(os.listdir(art)):
        if re.match(r'\d+-slow-unit', a):
            continue
        p = os.path.join(art, a)
        q = subprocess.run([binary, '-timeout=120', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=tmp)
        if q.returncode == 0:
            v.notes.append('a fuzzing report did not repeat: ' + a)
            continue
        os.makedirs(keep, exist_ok=True)
        dst = os.path.join(keep, 'C01-fuzz-' + a)
        with open(p, 'rb') as f, open(dst, 'wb') as g:
            d = f.read()
            g.write(d)
        text = q.stdout.decode('utf-8', 'replace')
        v.add('crash: ' + m.crash_key(text), 'fuzzing input %r ends abnormally:\n%s' % (d, text[-6000:]), run='fuzz', variant='fuzz', seed=seed, thorough=True, command='%s %s' % (binary, dst))


SPECS['C01'] = dict(
    runs=lambda Run, thorough: [
        Run('main', 'asan', 'C01.cpp', case_cpu=90),
        Run('after-return', 'asan', 'C01.cpp', scale=0.04, tscale=0.1, case_cpu=90, env={
            'VERIF_PROG_ASAN': '', 'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1'}),
        Run('pattern', 'plain', 'C01.cpp', digest=True, scale=4, tscale=4, case_cpu=60, env={'MALLOC_PERTURB_': '165', 'VERIF_PROG_ASAN': ''}),
        Run('zero', 'zero', 'C01.cpp', digest=True, scale=4, tscale=4, case_cpu=60, env={'MALLOC_PERTURB_': '90', 'VERIF_PROG_ASAN': ''}),
        Run('memcheck', 'light', 'C01.cpp', scale=0.7, tscale=0.4, case_cpu=600, confirm='natural', env={'VERIF_PROG_ASAN': '', 'VERIF_LIGHT': '1'},
            wrap=['valgrind', '-q', '--error-exitcode=67', '--exit-on-first-error=yes', '--main-stacksize=64000000']),
    ],
    extra=[fuzz],
    programs=[('asan', None)],
    compare=[('pattern', 'zero', 'uninitialised', 'the results depend on what uninitialised memory holds')],
    rule='Hostile texts (random bytes, token soup, mutated and concatenated phrases, repeated runs up to 1000 bytes) through every parser and the pipeline under '
         'AddressSanitizer, UndefinedBehaviorSanitizer (float-cast-overflow included) and the checked standard library; a subset with stack-use-after-return detection, a subset through the instrumented command line '
         'program, short texts under valgrind memcheck (reads of uninitialised memory), thorough: coverage-guided fuzzing with a mutator that knows the phrases, and all of them in two builds that start locals and heap memory with different contents and must give the same results. A crash, an escaped '
         'exception, a case that exceeds its CPU allowance (60-90 s) or a difference is a violation. Distinct: different (text, reference) other than result-less random bytes.',
    assumptions=TRUST + ['texts up to 1000 bytes; recursion depth of std::regex grows with the text, so much longer texts can exhaust the stack'],
    require={'program runs': 100, 'class long runs': 10, 'memcheck: pipelines': 100, 'cases compared: pattern against zero': 10000})
SPECS['C02'] = dict(
    runs=one('C02.cpp'), assumptions=TRUST,
    rule='Every result of every parser and every stage of the pipeline on phrases and hostile texts is judged for validity against a calendar model, including its '
         'conversion and rendering; texts whose date or time does not exist must give no result. Distinct: different (text, reference) with a result, or an impossible date.',
    require={'results judged, parsers': 5000, 'hour 24': 100, 'ends judged': 1000})
SPECS['C03'] = dict(
    runs=one('C03.cpp', 0.6), assumptions=TRUST,
    rule='Every stretch reported on phrases, repeated phrases and hostile texts is checked for bounds, order, overlap and trailing whitespace, at every stage, and each '
         'parser\'s stretch is parsed again alone. Distinct: different (text, reference) with a result.',
    require={'stretches parsed on their own': 20000, 'pipeline results': 5000})
SPECS['C04'] = dict(
    runs=lambda Run, thorough: [
        Run('main', 'plain', 'C04.cpp', digest=True, scale=0.5),
        Run('other order', 'plain', 'C04.cpp', args=['--reverse'], workers=5, digest=True, scale=0.5, env={'TZ': 'America/New_York', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'VERIF_LOCALE': '1'}),
        Run('fresh objects', 'plain', 'C04.cpp', workers=7, digest=True, scale=0.5, env={'VERIF_FRESH': '1'})],
    compare=[('main', 'other order', 'order', 'the results depend on what was parsed before (or on the time zone or the locale of the process)'), ('main', 'fresh objects', 'objects', 'the results depend on the objects used')],
    assumptions=TRUST,
    rule='The same calls are made in processes with different histories: forwards, backwards over another division of the work, with the parsers in another order, and with '
         'a fresh parser object for every call; their results are recorded and compared offline, call by call. Within each process calls are repeated after unrelated ones, '
         'and text, reference and refiner arguments are compared before and after. Distinct: different (text, reference) with a result.',
    require={'cases compared: main against other order': 10000, 'cases compared: main against fresh objects': 10000, 'refiner calls': 5000})
SPECS['C05'] = dict(
    runs=lambda Run, thorough: [Run('main', 'tsan', 'C05.cpp', workers=4, scale=1.5, case_cpu=120),
                                Run('stress', 'plain', 'C05.cpp', workers=2, tscale=0.2, case_cpu=120, env={'VERIF_STRESS': '1'})],
    assumptions=TRUST + ['the facet cache of libstdc++\'s locale is filled beforehand: its lazy filling by several threads is a race of the standard library, not of this code'],
    rule='Each case is a process that has not used the library yet (static initialisers aside): 2-16 threads pass a barrier and make 4-8 calls each, of the same parser, of different ones, of refiners or of the '
         'whole pipeline, with shared and own parser objects, under ThreadSanitizer; afterwards the same calls are made one after another and compared. A second run, without the race '
         'detector, lets threads make calls of one or two kinds over and over and compares each with the result it had alone. Distinct: different schedules (process, set of calls) '
         'in which calls were observed to overlap.',
    require={'processes with four or more calls observed overlapping': 60, 'stress: calls compared with the same calls made alone': 100000})
SPECS['C06'] = dict(
    runs=one('C06.cpp', 0.7), assumptions=TRUST,
    rule='Metamorphic: one to five phrases, each with the meaning its parser (or the pipeline) gives it alone in lower case, in random case and surroundings must give exactly these meanings at their places; '
         'neutral words and keywords hidden in longer words must give nothing. Distinct: different (text, reference).',
    require={'phrases compared with themselves alone': 20000, 'hidden keywords': 1000, 'several phrases through the pipeline': 2000})
SPECS['C19'] = dict(
    runs=one('C19.cpp'), assumptions=TRUST,
    rule='Input and output of overlap removal on synthetic lists (chains, touching, equal and nested stretches) and on parsed texts, judged by the rules and against a model. Distinct: different lists of at least two results.',
    require={'synthetic: several dropped': 5000, 'parsed: something dropped': 300})
SPECS['C20'] = dict(
    runs=one('C20.cpp'), assumptions=TRUST + ['the offsets are those of the table as shipped, written down separately in the harness; only abbreviations of two to four letters can be written'],
    rule='Time phrases followed by every abbreviation of the table and by other words, in all forms of spacing and parentheses, through parser and refiner, the pipeline, and as synthetic lists; offsets, spans and '
         'shifted rendering judged against a model. Distinct: different texts and lists.',
    require={'time with zone judged end to end': 2000, 'synthetic: unknown, not attached': 3000})
SPECS['C21'] = dict(
    runs=one('C21.cpp', 2), assumptions=TRUST,
    rule='Input and output of the date-time merging on synthetic lists and parsed texts against a model, and "date at time" texts end to end against the phrases\' own oracles. Distinct: different lists of at least two results.',
    require={'date at time: range': 300, 'synthetic: merges 2': 3000})
SPECS['C22'] = dict(
    runs=one('C22.cpp', 2), assumptions=TRUST,
    rule='Input and output of the date range merging on synthetic lists and parsed texts against a model, and "date to date" texts end to end. Distinct: different lists of at least two results.',
    require={'date to date: later first': 300, 'synthetic: ranges 2': 3000})
SPECS['C23'] = dict(
    runs=one('C23.cpp'), programs=[('plain', None)],
    assumptions=TRUST + ['texts with more than 16 results are not judged: the program sorts them with std::sort, which leaves the order of equal positions open'],
    rule='The built program is run with single phrases (expected output from the phrases\' oracles), several dates, zones, no phrase, malformed references, wrong argument counts, arbitrary texts (expected output from the library '
         'pipeline) and without a reference in several time zones (expected output for one of the seconds the run took). Distinct: different argument lists and time zones.',
    require={'program runs': 3000, 'malformed references': 200, 'no argument': 50})
