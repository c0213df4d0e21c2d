int main(){}
