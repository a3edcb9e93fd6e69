from vf import common as C
from vf.engine import Check, Stage

SECTIONS = ['BaseCampSaveData', 'WorkSaveData']
CHECK = Check(
    "C05",
    "a case is a world save with generated base camps and work; non-trivial: every field shown was compared with the generated "
    "value, the bytes were reproduced, and edits to decoded fields were stored exactly",
    [
        Stage("sections", C.section_case(SECTIONS, None), 12000, 400000, "one to three sections, then up to two edits of decoded fields"),
        Stage("single", C.one_section_case(SECTIONS, None), 16000, 400000, "one entry of one section"),
        Stage("sizes", C.section_sizes(['work_ids', 'passive', 'raw_unknown']), 1200, 20000, "one text or list of a chosen size"),
    ],
)
