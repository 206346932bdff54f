MODULES = {
    'C01': ['rotations'], 'C02': ['rotations'], 'C03': ['rotations', 'transforms'],
    'C04': ['transforms'], 'C05': ['transforms'], 'C06': ['transforms'],
    'C07': ['geomutil'], 'C08': ['geomutil'], 'C09': ['geomutil'],
    'C10': ['detector'], 'C11': ['detector'], 'C12': ['detector'],
    'C14': ['planes'], 'C15': ['planes'], 'C16': ['xtal'], 'C17': ['xtal'], 'C18': ['material'],
    'C21': ['instrument'], 'C22': ['spots'], 'C23': ['fitting'], 'C24': ['imageproc'], 'C25': ['indexing'], 'C26': ['grainfit'], 'C27': ['calib'], 'C28': ['wppf'],
    'C29': ['absorb'], 'C30': ['views'], 'C31': ['config'], 'C32': ['texture'], 'C33': ['ipf'], 'C34': ['nearfield'],
    'C19': ['imseries'], 'C20': ['imseries'],
}
