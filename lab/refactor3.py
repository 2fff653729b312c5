E=[
('isbusy','t86/ram.cpp','return reads_.size() == gatesCnt_;','return reads_.size() != gatesCnt_;'),
('isbusy2','t86/ram.cpp','if (!isBusy()) {','if (isBusy()) {'),
]
