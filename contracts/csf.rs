// ------------------------- the contrast sensitivity tables (published values)
pub open spec fn csf_y(n: int) -> real {
    if n == 0 { 1.6193873005real } else if n == 1 { 2.2901594831real } else if n == 2 { 2.08509755623real } else if n == 3 { 1.48366094411real } else if n == 4 { 1.00227514334real } else if n == 5 { 0.678296995242real } else if n == 6 { 0.466224900598real } else if n == 7 { 0.3265091542real } else
    if n == 8 { 2.2901594831real } else if n == 9 { 1.94321815382real } else if n == 10 { 2.04793073064real } else if n == 11 { 1.68731108984real } else if n == 12 { 1.2305666963real } else if n == 13 { 0.868920337363real } else if n == 14 { 0.61280991668real } else if n == 15 { 0.436405793551real } else
    if n == 16 { 2.08509755623real } else if n == 17 { 2.04793073064real } else if n == 18 { 1.34329019223real } else if n == 19 { 1.09205635862real } else if n == 20 { 0.875748795257real } else if n == 21 { 0.670882927016real } else if n == 22 { 0.501731932449real } else if n == 23 { 0.372504254596real } else
    if n == 24 { 1.48366094411real } else if n == 25 { 1.68731108984real } else if n == 26 { 1.09205635862real } else if n == 27 { 0.772819797575real } else if n == 28 { 0.605636379554real } else if n == 29 { 0.48309405692real } else if n == 30 { 0.380429446972real } else if n == 31 { 0.295774038565real } else
    if n == 32 { 1.00227514334real } else if n == 33 { 1.2305666963real } else if n == 34 { 0.875748795257real } else if n == 35 { 0.605636379554real } else if n == 36 { 0.448996256676real } else if n == 37 { 0.352889268808real } else if n == 38 { 0.283006984131real } else if n == 39 { 0.226951348204real } else
    if n == 40 { 0.678296995242real } else if n == 41 { 0.868920337363real } else if n == 42 { 0.670882927016real } else if n == 43 { 0.48309405692real } else if n == 44 { 0.352889268808real } else if n == 45 { 0.27032073436real } else if n == 46 { 0.215017739696real } else if n == 47 { 0.17408067321real } else
    if n == 48 { 0.466224900598real } else if n == 49 { 0.61280991668real } else if n == 50 { 0.501731932449real } else if n == 51 { 0.380429446972real } else if n == 52 { 0.283006984131real } else if n == 53 { 0.215017739696real } else if n == 54 { 0.168869545842real } else if n == 55 { 0.136153931001real } else
    if n == 56 { 0.3265091542real } else if n == 57 { 0.436405793551real } else if n == 58 { 0.372504254596real } else if n == 59 { 0.295774038565real } else if n == 60 { 0.226951348204real } else if n == 61 { 0.17408067321real } else if n == 62 { 0.136153931001real } else if n == 63 { 0.109083846276real } else
    { 1real }
}
pub open spec fn is_csf_y(m: [[Fl; 8]; 8]) -> bool {
    &&& m[0][0]@ == 1.6193873005real &&& m[0][1]@ == 2.2901594831real &&& m[0][2]@ == 2.08509755623real &&& m[0][3]@ == 1.48366094411real &&& m[0][4]@ == 1.00227514334real &&& m[0][5]@ == 0.678296995242real &&& m[0][6]@ == 0.466224900598real &&& m[0][7]@ == 0.3265091542real
    &&& m[1][0]@ == 2.2901594831real &&& m[1][1]@ == 1.94321815382real &&& m[1][2]@ == 2.04793073064real &&& m[1][3]@ == 1.68731108984real &&& m[1][4]@ == 1.2305666963real &&& m[1][5]@ == 0.868920337363real &&& m[1][6]@ == 0.61280991668real &&& m[1][7]@ == 0.436405793551real
    &&& m[2][0]@ == 2.08509755623real &&& m[2][1]@ == 2.04793073064real &&& m[2][2]@ == 1.34329019223real &&& m[2][3]@ == 1.09205635862real &&& m[2][4]@ == 0.875748795257real &&& m[2][5]@ == 0.670882927016real &&& m[2][6]@ == 0.501731932449real &&& m[2][7]@ == 0.372504254596real
    &&& m[3][0]@ == 1.48366094411real &&& m[3][1]@ == 1.68731108984real &&& m[3][2]@ == 1.09205635862real &&& m[3][3]@ == 0.772819797575real &&& m[3][4]@ == 0.605636379554real &&& m[3][5]@ == 0.48309405692real &&& m[3][6]@ == 0.380429446972real &&& m[3][7]@ == 0.295774038565real
    &&& m[4][0]@ == 1.00227514334real &&& m[4][1]@ == 1.2305666963real &&& m[4][2]@ == 0.875748795257real &&& m[4][3]@ == 0.605636379554real &&& m[4][4]@ == 0.448996256676real &&& m[4][5]@ == 0.352889268808real &&& m[4][6]@ == 0.283006984131real &&& m[4][7]@ == 0.226951348204real
    &&& m[5][0]@ == 0.678296995242real &&& m[5][1]@ == 0.868920337363real &&& m[5][2]@ == 0.670882927016real &&& m[5][3]@ == 0.48309405692real &&& m[5][4]@ == 0.352889268808real &&& m[5][5]@ == 0.27032073436real &&& m[5][6]@ == 0.215017739696real &&& m[5][7]@ == 0.17408067321real
    &&& m[6][0]@ == 0.466224900598real &&& m[6][1]@ == 0.61280991668real &&& m[6][2]@ == 0.501731932449real &&& m[6][3]@ == 0.380429446972real &&& m[6][4]@ == 0.283006984131real &&& m[6][5]@ == 0.215017739696real &&& m[6][6]@ == 0.168869545842real &&& m[6][7]@ == 0.136153931001real
    &&& m[7][0]@ == 0.3265091542real &&& m[7][1]@ == 0.436405793551real &&& m[7][2]@ == 0.372504254596real &&& m[7][3]@ == 0.295774038565real &&& m[7][4]@ == 0.226951348204real &&& m[7][5]@ == 0.17408067321real &&& m[7][6]@ == 0.136153931001real &&& m[7][7]@ == 0.109083846276real
}
pub proof fn at_csf_y(m: [[Fl; 8]; 8]) requires is_csf_y(m) ensures table(m, |n: int| csf_y(n))
{
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 implies (#[trigger] m[i][j])@ == csf_y(8 * i + j) by {
        if i == 0 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 1 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 2 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 3 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 4 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 5 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 6 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 7 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
    }
}
pub proof fn pos_csf_y(n: int) ensures csf_y(n) > 0real {}
pub open spec fn csf_cb(n: int) -> real {
    if n == 0 { 1.91113096927real } else if n == 1 { 2.46074210438real } else if n == 2 { 1.18284184739real } else if n == 3 { 1.14982565193real } else if n == 4 { 1.05017074788real } else if n == 5 { 0.898018824055real } else if n == 6 { 0.74725392039real } else if n == 7 { 0.615105596242real } else
    if n == 8 { 2.46074210438real } else if n == 9 { 1.58529308355real } else if n == 10 { 1.21363250036real } else if n == 11 { 1.38190029285real } else if n == 12 { 1.33100189972real } else if n == 13 { 1.17428548929real } else if n == 14 { 0.996404342439real } else if n == 15 { 0.830890433625real } else
    if n == 16 { 1.18284184739real } else if n == 17 { 1.21363250036real } else if n == 18 { 0.978712413627real } else if n == 19 { 1.02624506078real } else if n == 20 { 1.03145147362real } else if n == 21 { 0.960060382087real } else if n == 22 { 0.849823426169real } else if n == 23 { 0.731221236837real } else
    if n == 24 { 1.14982565193real } else if n == 25 { 1.38190029285real } else if n == 26 { 1.02624506078real } else if n == 27 { 0.861317501629real } else if n == 28 { 0.801821139099real } else if n == 29 { 0.751437590932real } else if n == 30 { 0.685398513368real } else if n == 31 { 0.608694761374real } else
    if n == 32 { 1.05017074788real } else if n == 33 { 1.33100189972real } else if n == 34 { 1.03145147362real } else if n == 35 { 0.801821139099real } else if n == 36 { 0.676555426187real } else if n == 37 { 0.605503172737real } else if n == 38 { 0.55002013668real } else if n == 39 { 0.495804539034real } else
    if n == 40 { 0.898018824055real } else if n == 41 { 1.17428548929real } else if n == 42 { 0.960060382087real } else if n == 43 { 0.751437590932real } else if n == 44 { 0.605503172737real } else if n == 45 { 0.514674450957real } else if n == 46 { 0.454353482512real } else if n == 47 { 0.407050308965real } else
    if n == 48 { 0.74725392039real } else if n == 49 { 0.996404342439real } else if n == 50 { 0.849823426169real } else if n == 51 { 0.685398513368real } else if n == 52 { 0.55002013668real } else if n == 53 { 0.454353482512real } else if n == 54 { 0.389234902883real } else if n == 55 { 0.342353999733real } else
    if n == 56 { 0.615105596242real } else if n == 57 { 0.830890433625real } else if n == 58 { 0.731221236837real } else if n == 59 { 0.608694761374real } else if n == 60 { 0.495804539034real } else if n == 61 { 0.407050308965real } else if n == 62 { 0.342353999733real } else if n == 63 { 0.295530605237real } else
    { 1real }
}
pub open spec fn is_csf_cb(m: [[Fl; 8]; 8]) -> bool {
    &&& m[0][0]@ == 1.91113096927real &&& m[0][1]@ == 2.46074210438real &&& m[0][2]@ == 1.18284184739real &&& m[0][3]@ == 1.14982565193real &&& m[0][4]@ == 1.05017074788real &&& m[0][5]@ == 0.898018824055real &&& m[0][6]@ == 0.74725392039real &&& m[0][7]@ == 0.615105596242real
    &&& m[1][0]@ == 2.46074210438real &&& m[1][1]@ == 1.58529308355real &&& m[1][2]@ == 1.21363250036real &&& m[1][3]@ == 1.38190029285real &&& m[1][4]@ == 1.33100189972real &&& m[1][5]@ == 1.17428548929real &&& m[1][6]@ == 0.996404342439real &&& m[1][7]@ == 0.830890433625real
    &&& m[2][0]@ == 1.18284184739real &&& m[2][1]@ == 1.21363250036real &&& m[2][2]@ == 0.978712413627real &&& m[2][3]@ == 1.02624506078real &&& m[2][4]@ == 1.03145147362real &&& m[2][5]@ == 0.960060382087real &&& m[2][6]@ == 0.849823426169real &&& m[2][7]@ == 0.731221236837real
    &&& m[3][0]@ == 1.14982565193real &&& m[3][1]@ == 1.38190029285real &&& m[3][2]@ == 1.02624506078real &&& m[3][3]@ == 0.861317501629real &&& m[3][4]@ == 0.801821139099real &&& m[3][5]@ == 0.751437590932real &&& m[3][6]@ == 0.685398513368real &&& m[3][7]@ == 0.608694761374real
    &&& m[4][0]@ == 1.05017074788real &&& m[4][1]@ == 1.33100189972real &&& m[4][2]@ == 1.03145147362real &&& m[4][3]@ == 0.801821139099real &&& m[4][4]@ == 0.676555426187real &&& m[4][5]@ == 0.605503172737real &&& m[4][6]@ == 0.55002013668real &&& m[4][7]@ == 0.495804539034real
    &&& m[5][0]@ == 0.898018824055real &&& m[5][1]@ == 1.17428548929real &&& m[5][2]@ == 0.960060382087real &&& m[5][3]@ == 0.751437590932real &&& m[5][4]@ == 0.605503172737real &&& m[5][5]@ == 0.514674450957real &&& m[5][6]@ == 0.454353482512real &&& m[5][7]@ == 0.407050308965real
    &&& m[6][0]@ == 0.74725392039real &&& m[6][1]@ == 0.996404342439real &&& m[6][2]@ == 0.849823426169real &&& m[6][3]@ == 0.685398513368real &&& m[6][4]@ == 0.55002013668real &&& m[6][5]@ == 0.454353482512real &&& m[6][6]@ == 0.389234902883real &&& m[6][7]@ == 0.342353999733real
    &&& m[7][0]@ == 0.615105596242real &&& m[7][1]@ == 0.830890433625real &&& m[7][2]@ == 0.731221236837real &&& m[7][3]@ == 0.608694761374real &&& m[7][4]@ == 0.495804539034real &&& m[7][5]@ == 0.407050308965real &&& m[7][6]@ == 0.342353999733real &&& m[7][7]@ == 0.295530605237real
}
pub proof fn at_csf_cb(m: [[Fl; 8]; 8]) requires is_csf_cb(m) ensures table(m, |n: int| csf_cb(n))
{
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 implies (#[trigger] m[i][j])@ == csf_cb(8 * i + j) by {
        if i == 0 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 1 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 2 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 3 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 4 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 5 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 6 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 7 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
    }
}
pub proof fn pos_csf_cb(n: int) ensures csf_cb(n) > 0real {}
pub open spec fn csf_cr(n: int) -> real {
    if n == 0 { 2.03871978502real } else if n == 1 { 2.62502345193real } else if n == 2 { 1.26180942886real } else if n == 3 { 1.11019789803real } else if n == 4 { 1.01397751469real } else if n == 5 { 0.867069376285real } else if n == 6 { 0.721500455585real } else if n == 7 { 0.593906509971real } else
    if n == 8 { 2.62502345193real } else if n == 9 { 1.69112867013real } else if n == 10 { 1.17180569821real } else if n == 11 { 1.3342742857real } else if n == 12 { 1.28513006198real } else if n == 13 { 1.13381474809real } else if n == 14 { 0.962064122248real } else if n == 15 { 0.802254508198real } else
    if n == 16 { 1.26180942886real } else if n == 17 { 1.17180569821real } else if n == 18 { 0.944981930573real } else if n == 19 { 0.990876405848real } else if n == 20 { 0.995903384143real } else if n == 21 { 0.926972725286real } else if n == 22 { 0.820534991409real } else if n == 23 { 0.706020324706real } else
    if n == 24 { 1.11019789803real } else if n == 25 { 1.3342742857real } else if n == 26 { 0.990876405848real } else if n == 27 { 0.831632933426real } else if n == 28 { 0.77418706195real } else if n == 29 { 0.725539939514real } else if n == 30 { 0.661776842059real } else if n == 31 { 0.587716619023real } else
    if n == 32 { 1.01397751469real } else if n == 33 { 1.28513006198real } else if n == 34 { 0.995903384143real } else if n == 35 { 0.77418706195real } else if n == 36 { 0.653238524286real } else if n == 37 { 0.584635025748real } else if n == 38 { 0.531064164893real } else if n == 39 { 0.478717061273real } else
    if n == 40 { 0.867069376285real } else if n == 41 { 1.13381474809real } else if n == 42 { 0.926972725286real } else if n == 43 { 0.725539939514real } else if n == 44 { 0.584635025748real } else if n == 45 { 0.496936637883real } else if n == 46 { 0.438694579826real } else if n == 47 { 0.393021669543real } else
    if n == 48 { 0.721500455585real } else if n == 49 { 0.962064122248real } else if n == 50 { 0.820534991409real } else if n == 51 { 0.661776842059real } else if n == 52 { 0.531064164893real } else if n == 53 { 0.438694579826real } else if n == 54 { 0.375820256136real } else if n == 55 { 0.330555063063real } else
    if n == 56 { 0.593906509971real } else if n == 57 { 0.802254508198real } else if n == 58 { 0.706020324706real } else if n == 59 { 0.587716619023real } else if n == 60 { 0.478717061273real } else if n == 61 { 0.393021669543real } else if n == 62 { 0.330555063063real } else if n == 63 { 0.285345396658real } else
    { 1real }
}
pub open spec fn is_csf_cr(m: [[Fl; 8]; 8]) -> bool {
    &&& m[0][0]@ == 2.03871978502real &&& m[0][1]@ == 2.62502345193real &&& m[0][2]@ == 1.26180942886real &&& m[0][3]@ == 1.11019789803real &&& m[0][4]@ == 1.01397751469real &&& m[0][5]@ == 0.867069376285real &&& m[0][6]@ == 0.721500455585real &&& m[0][7]@ == 0.593906509971real
    &&& m[1][0]@ == 2.62502345193real &&& m[1][1]@ == 1.69112867013real &&& m[1][2]@ == 1.17180569821real &&& m[1][3]@ == 1.3342742857real &&& m[1][4]@ == 1.28513006198real &&& m[1][5]@ == 1.13381474809real &&& m[1][6]@ == 0.962064122248real &&& m[1][7]@ == 0.802254508198real
    &&& m[2][0]@ == 1.26180942886real &&& m[2][1]@ == 1.17180569821real &&& m[2][2]@ == 0.944981930573real &&& m[2][3]@ == 0.990876405848real &&& m[2][4]@ == 0.995903384143real &&& m[2][5]@ == 0.926972725286real &&& m[2][6]@ == 0.820534991409real &&& m[2][7]@ == 0.706020324706real
    &&& m[3][0]@ == 1.11019789803real &&& m[3][1]@ == 1.3342742857real &&& m[3][2]@ == 0.990876405848real &&& m[3][3]@ == 0.831632933426real &&& m[3][4]@ == 0.77418706195real &&& m[3][5]@ == 0.725539939514real &&& m[3][6]@ == 0.661776842059real &&& m[3][7]@ == 0.587716619023real
    &&& m[4][0]@ == 1.01397751469real &&& m[4][1]@ == 1.28513006198real &&& m[4][2]@ == 0.995903384143real &&& m[4][3]@ == 0.77418706195real &&& m[4][4]@ == 0.653238524286real &&& m[4][5]@ == 0.584635025748real &&& m[4][6]@ == 0.531064164893real &&& m[4][7]@ == 0.478717061273real
    &&& m[5][0]@ == 0.867069376285real &&& m[5][1]@ == 1.13381474809real &&& m[5][2]@ == 0.926972725286real &&& m[5][3]@ == 0.725539939514real &&& m[5][4]@ == 0.584635025748real &&& m[5][5]@ == 0.496936637883real &&& m[5][6]@ == 0.438694579826real &&& m[5][7]@ == 0.393021669543real
    &&& m[6][0]@ == 0.721500455585real &&& m[6][1]@ == 0.962064122248real &&& m[6][2]@ == 0.820534991409real &&& m[6][3]@ == 0.661776842059real &&& m[6][4]@ == 0.531064164893real &&& m[6][5]@ == 0.438694579826real &&& m[6][6]@ == 0.375820256136real &&& m[6][7]@ == 0.330555063063real
    &&& m[7][0]@ == 0.593906509971real &&& m[7][1]@ == 0.802254508198real &&& m[7][2]@ == 0.706020324706real &&& m[7][3]@ == 0.587716619023real &&& m[7][4]@ == 0.478717061273real &&& m[7][5]@ == 0.393021669543real &&& m[7][6]@ == 0.330555063063real &&& m[7][7]@ == 0.285345396658real
}
pub proof fn at_csf_cr(m: [[Fl; 8]; 8]) requires is_csf_cr(m) ensures table(m, |n: int| csf_cr(n))
{
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 implies (#[trigger] m[i][j])@ == csf_cr(8 * i + j) by {
        if i == 0 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 1 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 2 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 3 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 4 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 5 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 6 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
        if i == 7 { if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else if j == 7 {} }
    }
}
pub proof fn pos_csf_cr(n: int) ensures csf_cr(n) > 0real {}
pub open spec fn table(m: [[Fl; 8]; 8], c: spec_fn(int) -> real) -> bool { forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 ==> (#[trigger] m[i][j])@ == c(8 * i + j) }
