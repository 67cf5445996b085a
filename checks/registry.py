REGISTRY = {
    'C19': ('la', 'c19', {}),
    'C20': ('la', 'c20', {}),
    'C21': ('la', 'c21', {}),
}
REGISTRY.update({'C%02d' % k: ('tree', 'c%02d' % k, {}) for k in (6, 7, 8, 9, 10)})
REGISTRY.update({c: ('hps', c.lower(), {}) for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C28')})
REGISTRY.update({'C%d' % k: ('leaf', 'c%d' % k, {}) for k in (14, 15, 16, 17, 18)})
REGISTRY.update({'C%d' % k: ('mesh', 'c%d' % k, {}) for k in (11, 12, 13)})
REGISTRY['C22'] = ('wrap', 'c22', {})
REGISTRY.update({'C%d' % k: ('util', 'c%d' % k, {}) for k in (23, 24, 25, 26)})
REGISTRY['C27'] = ('wrap', 'c27', {})
REGISTRY['C29'] = ('team', 'c29', {})
REGISTRY['C30'] = ('keep', 'c30', {})
REGISTRY['C31'] = ('printing', 'c31', {})
