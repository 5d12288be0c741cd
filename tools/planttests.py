def failing(res, base):
    ok = set(res['passed'])
    return [x for x in base['stable'] if x not in ok]
