EP='debugger/Source/ExpressionParser.cpp'
E=[('c1',EP,'{TokenKind::MINUS, BinaryOperator::Op::Sub},','{TokenKind::MINUS, BinaryOperator::Op::Add},'),
('c2','t86/cpu.h','bool trapFlag_{false};','bool trapFlag_{true};')]
