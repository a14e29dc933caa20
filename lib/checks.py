import pbchecks, semchecks, jsonchecks, compchecks, statechecks

CHECKS = {}
for mod in (pbchecks, semchecks, jsonchecks, compchecks, statechecks):
    for n in dir(mod):
        if len(n) == 3 and n[0] in "wjc" and n[1:].isdigit() and getattr(mod, n).__module__ == mod.__name__:
            CHECKS[n.upper()] = getattr(mod, n)
